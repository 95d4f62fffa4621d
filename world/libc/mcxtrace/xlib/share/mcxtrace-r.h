#ifndef MCXTRACE_R_H
#define MCXTRACE_R_H "v0"
#endif
