_class_particle mcsetstate(double x, double y, double z, double vx, double vy, double vz, double t, double sx, double sy, double sz, double p, int mcgravitation, void *mcMagnet, int mcallowbackprop) {
  _class_particle q;
  memset(&q, 0, sizeof q);
  q.x = x; q.y = y; q.z = z; q.vx = vx; q.vy = vy; q.vz = vz; q.t = t; q.sx = sx; q.sy = sy; q.sz = sz; q.p = p;
  q.mcgravitation = mcgravitation; q.mcMagnet = mcMagnet; q.allow_backprop = mcallowbackprop;
  q._index = 1;
  return q;
}
void mccoordschange(Coords a, Rotation t, _class_particle *particle) {
  Coords b = coords_add(rot_apply(t, coords_set(particle->x, particle->y, particle->z)), a);
  particle->x = b.x; particle->y = b.y; particle->z = b.z;
  b = rot_apply(t, coords_set(particle->vx, particle->vy, particle->vz));
  particle->vx = b.x; particle->vy = b.y; particle->vz = b.z;
  b = rot_apply(t, coords_set(particle->sx, particle->sy, particle->sz));
  particle->sx = b.x; particle->sy = b.y; particle->sz = b.z;
}
