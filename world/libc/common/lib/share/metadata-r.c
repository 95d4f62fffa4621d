int metadata_table_defined(int num, struct metadata_table_struct *tab, char *name) {
  for (int i = 0; i < num; i++) if (!strcmp(tab[i].name, name)) return 1;
  return 0;
}
