// Runs the participants of a small coupled simulation on the ranks of one MPI job.
#pragma once
#include <mpi.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <string>
#include <vector>
#include "precice/precice.hpp"

using precice::Participant;

struct Solver {
  const char                              *name;
  int                                      ranks;
  std::function<void(Participant &, int)> run;
};

inline bool close(double a, double b)
{
  return std::abs(a - b) < 1e-8;
}
#define CHECK(c, ...)                                        \
  do {                                                       \
    if (!(c)) {                                              \
      std::printf("FAILED %s: ", #c);                        \
      std::printf(__VA_ARGS__);                              \
      std::printf("\n");                                     \
      std::fflush(stdout);                                   \
      std::_Exit(3);                                         \
    }                                                        \
  } while (0)

inline int demo(int argc, char **argv, const std::string &config, const std::vector<Solver> &solvers)
{
  MPI_Init(&argc, &argv);
  int rank = 0;
  MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  if (rank == 0)
    std::ofstream("config.xml") << "<precice-configuration><log enabled=\"false\"/><profiling mode=\"off\"/>" << config << "</precice-configuration>";
  MPI_Barrier(MPI_COMM_WORLD);
  int first = 0, s = 0;
  while (rank >= first + solvers[s].ranks)
    first += solvers[s++].ranks;
  MPI_Comm comm;
  MPI_Comm_split(MPI_COMM_WORLD, s, rank, &comm);
  {
    Participant p(solvers[s].name, "config.xml", rank - first, solvers[s].ranks, &comm);
    solvers[s].run(p, rank - first);
    p.finalize();
  }
  MPI_Finalize();
  if (rank == 0)
    std::printf("ok\n");
  return 0;
}
