void gauge_setup(gauge_table_t *table, int bins, double low, double high) { table->bins = bins; table->low = low; table->high = high; }
int gauge_bin(gauge_table_t *table, double value) {
  int k = (int)floor((value - table->low) / (table->high - table->low) * table->bins);
  return k < 0 ? 0 : k >= table->bins ? table->bins - 1 : k;
}
