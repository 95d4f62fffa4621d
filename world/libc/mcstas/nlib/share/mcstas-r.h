#ifndef MCSTAS_R_H
#define MCSTAS_R_H "v0"
#define PROP_DT(dt) do { x += vx*(dt); y += vy*(dt); z += vz*(dt); t += (dt); } while (0)
#endif
