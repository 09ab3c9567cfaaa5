// Runs the real TimeLoop of one equation:  tl DIM PRM
#include <instantiate.h>
#include <compile_time_options.h>
#include <description.h>
#include <time_loop.h>
#include <omp.h>
#include <iostream>

using namespace ryujin;

template <int dim>
void run(const std::string &prm)
{
  TimeLoop<Description, dim, NUMBER> loop(MPI_COMM_WORLD);
  dealii::ParameterAcceptor::initialize(prm);
  loop.run();
}

int main(int argc, char **argv)
{
  dealii::Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  if (argc < 3)
    return 2;
  omp_set_num_threads(std::getenv("PROBE_THREADS") ? std::atoi(std::getenv("PROBE_THREADS")) : 1);
  const int dim = std::atoi(argv[1]);
  try {
    if (dim == VDIM)
      run<VDIM>(argv[2]);
#ifdef VDIM2
    else if (dim == VDIM2)
      run<VDIM2>(argv[2]);
#endif
    else
      return 2;
  } catch (std::exception &e) {
    std::cerr << "EXCEPTION " << e.what() << std::endl;
    std::_Exit(3);
  }
  return 0;
}
