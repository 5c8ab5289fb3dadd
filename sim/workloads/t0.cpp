#include <neso_particles.hpp>
#include "simcore.hpp"
using namespace NESO::Particles;
namespace simwl {
const char *property_id = "T00";
void choose_knobs() {}
int N;
void plan() { N = 5 + sim::rnd_below(sim::S_WORK, 60); }
void rank_main(int r) {
  const int ndim = 2;
  std::vector<int> dims(ndim); dims[0]=4; dims[1]=8;
  auto mesh = std::make_shared<CartesianHMesh>(MPI_COMM_WORLD, ndim, dims, 1.0, 1);
  auto sycl_target = std::make_shared<SYCLTarget>(0, mesh->get_comm());
  auto mapper = CartesianHMeshLocalMapper(sycl_target, mesh);
  auto domain = std::make_shared<Domain>(mesh, mapper);
  ParticleSpec spec{ParticleProp(Sym<REAL>("P"), ndim, true), ParticleProp(Sym<REAL>("V"), 3),
    ParticleProp(Sym<INT>("CELL_ID"), 1, true), ParticleProp(Sym<INT>("ID"), 1)};
  auto A = std::make_shared<ParticleGroup>(domain, spec, sycl_target);
  ParticleSet ps(N, A->get_particle_spec());
  for (int i = 0; i < N; i++) {
    for (int d = 0; d < ndim; d++) ps[Sym<REAL>("P")][i][d] = sim::rnd_unit(sim::S_WORK) * (d ? 8 : 4);
    ps[Sym<INT>("CELL_ID")][i][0] = 0;
    ps[Sym<INT>("ID")][i][0] = r * 1000 + i;
  }
  A->add_particles_local(ps);
  A->hybrid_move();
  mesh->free();
}
void finish() {}
const char *judge_abort(const char *m) { return "the library stopped on a valid input"; }
}
