#ifndef GAUGE_TYPES_H
#define GAUGE_TYPES_H
typedef struct { int bins; double low, high; } gauge_table_t;
#endif
