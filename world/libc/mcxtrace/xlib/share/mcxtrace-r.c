_class_particle mcsetstate(double x, double y, double z, double kx, double ky, double kz, double phi, double t, double Ex, double Ey, double Ez, double p, int mcgravitation, void *mcMagnet, int mcallowbackprop) {
  _class_particle q;
  memset(&q, 0, sizeof q);
  q.x = x; q.y = y; q.z = z; q.kx = kx; q.ky = ky; q.kz = kz; q.phi = phi; q.t = t; q.Ex = Ex; q.Ey = Ey; q.Ez = Ez; q.p = p;
  q._index = 1;
  return q;
}
void mccoordschange(Coords a, Rotation t, _class_particle *particle) {
  Coords b = coords_add(rot_apply(t, coords_set(particle->x, particle->y, particle->z)), a);
  particle->x = b.x; particle->y = b.y; particle->z = b.z;
  b = rot_apply(t, coords_set(particle->kx, particle->ky, particle->kz));
  particle->kx = b.x; particle->ky = b.y; particle->kz = b.z;
  b = rot_apply(t, coords_set(particle->Ex, particle->Ey, particle->Ez));
  particle->Ex = b.x; particle->Ey = b.y; particle->Ez = b.z;
}
