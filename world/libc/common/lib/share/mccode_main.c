int mccode_main(int argc, char *argv[]) {
  unsigned long seed = 1;
  int given[numipar + 1];
  instrument_exe = argv[0];
  for (int i = 0; i < numipar; i++) given[i] = 0;
  if (getenv("VSIM_TAPE")) vsim_tape = strtoull(getenv("VSIM_TAPE"), NULL, 10);
  if (getenv("VSIM_LOG")) {
    vsim_logfile = fopen(getenv("VSIM_LOG"), "w");
    if (!vsim_logfile) { fprintf(stderr, "no log\n"); return 3; }
  }
  for (int i = 1; i < argc; i++) {
    char *a = argv[i], *v = NULL;
    if (a[0] == '-') {
      char *eq = strchr(a, '=');
      const char *opts[] = {"--seed", "-s", "--ncount", "-n", "--dir", "-d", "--format", "--bufsiz"};
      int which = -1;
      for (int k = 0; k < 8; k++) {
        size_t n = strlen(opts[k]);
        if (!strncmp(a, opts[k], n) && (a[n] == 0 || a[n] == '=')) which = k;
      }
      if (which >= 0) {
        v = eq ? eq + 1 : (i + 1 < argc ? argv[++i] : "");
        if (which < 2) seed = strtoul(v, NULL, 10);
        else if (which < 4) vsim_ncount = (unsigned long long)strtod(v, NULL);
        else if (which < 6) {
          if (mkdir(v, 0777)) { fprintf(stderr, "Error: unable to create directory '%s' (%s)\n", v, strerror(errno)); return 1; }
          stracpy(vsim_dir, v, 4096);
        }
      } else if (!strcmp(a, "--trace") || !strcmp(a, "-t")) mcdotrace = 1;
      else if (!strcmp(a, "--gravitation") || !strcmp(a, "-g")) mcgravitation = 1;
      else { fprintf(stderr, "Error: unrecognised option %s\n", a); return 1; }
      continue;
    }
    char *eq = strchr(a, '=');
    int k;
    for (k = 0; eq && k < numipar; k++)
      if (strlen(mcinputtable[k].name) == (size_t)(eq - a) && !strncmp(mcinputtable[k].name, a, eq - a)) break;
    if (!eq || k == numipar) { fprintf(stderr, "Error: unrecognised parameter %s\n", a); return 1; }
    mcinputtable[k].val = eq + 1;
    given[k] = 1;
  }
  for (int k = 0; k < numipar; k++) {
    char *v = mcinputtable[k].val;
    if (!given[k] && !v[0]) { fprintf(stderr, "Error: no value for parameter %s\n", mcinputtable[k].name); return 1; }
    if (mcinputtable[k].type == instr_type_double) *(double *)mcinputtable[k].par = strtod(v, NULL);
    else if (mcinputtable[k].type == instr_type_int) *(int *)mcinputtable[k].par = (int)strtol(v, NULL, 10);
    else *(char **)mcinputtable[k].par = v;
  }
  init();
#ifdef FUNNEL
  raytrace_all_funnel(vsim_ncount, seed);
#else
  raytrace_all(vsim_ncount, seed);
#endif
  finally();
  if (vsim_logfile && fclose(vsim_logfile)) return 4;
  return 0;
}
