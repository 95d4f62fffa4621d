%include "gauge-types"
#ifndef GAUGE_LIB_H
#define GAUGE_LIB_H
void gauge_setup(gauge_table_t *table, int bins, double low, double high);
int gauge_bin(gauge_table_t *table, double value);
#endif
