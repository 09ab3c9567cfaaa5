// Takes the place of the time loop for the driver: real parameters of the equation, the mesh and the initial state; a run is
// recorded in the file "runs".
#pragma once
#include <discretization.h>
#include <initial_values.h>
#include <offline_data.h>
#include <deal.II/base/parameter_acceptor.h>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <typeinfo>
#include <cxxabi.h>

namespace ryujin
{
  template <typename Description, int dim, typename Number = double>
  class TimeLoop final : public dealii::ParameterAcceptor
  {
    using View = typename Description::template HyperbolicSystemView<dim, Number>;

  public:
    TimeLoop(const MPI_Comm &comm)
        : ParameterAcceptor("/A - TimeLoop")
        , comm_(comm)
        , hyperbolic_system_("/B - Equation")
        , parabolic_system_("/B - Equation")
        , discretization_(comm, "/C - Discretization")
        , offline_data_(comm, discretization_, "/D - OfflineData")
        , initial_values_(hyperbolic_system_, offline_data_, "/E - InitialValues")
    {
      base_name_ = "";
      add_parameter("basename", base_name_, "Base name");
      t_final_ = Number(5.);
      add_parameter("final time", t_final_, "Final time");
    }

    void run()
    {
      int status = 0;
      std::unique_ptr<char, void (*)(void *)> name{abi::__cxa_demangle(typeid(Description).name(), nullptr, nullptr, &status), std::free};
      dealii::Point<dim> x;
      for (unsigned int d = 0; d < dim; ++d)
        x[d] = 0.25;
      const auto U = initial_values_.initial_state(x, Number(0.));
      std::ostringstream s;
      s << std::setprecision(17) << "{\"description\":\"" << name.get() << "\",\"dim\":" << dim << ",\"basename\":\"" << base_name_
        << "\",\"final\":\"" << t_final_ << "\",\"level\":" << discretization_.refinement() << ",\"density\":\"" << U[0] << "\"}\n";
      std::ofstream("runs." + std::to_string(dealii::Utilities::MPI::this_mpi_process(comm_)), std::ios::app) << s.str();
    }

  private:
    MPI_Comm comm_;
    std::string base_name_;
    Number t_final_;
    typename Description::HyperbolicSystem hyperbolic_system_;
    typename Description::ParabolicSystem parabolic_system_;
    Discretization<dim> discretization_;
    OfflineData<dim, Number> offline_data_;
    InitialValues<Description, dim, Number> initial_values_;
  };
} // namespace ryujin
