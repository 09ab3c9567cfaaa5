// Drives the sparse matrix and vector storage:  st WHICH N_COMP LAYOUT COMMANDS OUT
//   WHICH: d1, d2 (double, 1 and 2 rows at once), f4 (float, 4 rows at once)
// Rows and columns are addressed with their global index; see tools/checks/c10.py for the commands.
#include <deal.II/base/config.h>
#ifdef __SSE2__
#undef DEAL_II_VECTORIZATION_WIDTH_IN_BITS
#define DEAL_II_VECTORIZATION_WIDTH_IN_BITS 128
#endif
#include <compile_time_options.h>
#include <multicomponent_vector.h>
#include <sparse_matrix_simd.h>
#include <sparse_matrix_simd.template.h>
#include <deal.II/base/mpi.h>
#include <deal.II/base/multithread_info.h>
#include <deal.II/lac/dynamic_sparsity_pattern.h>
#include <cmath>
#include <fstream>
#include <iostream>
#include <sstream>

using namespace ryujin;
using namespace dealii;

static std::string num(const double v)
{
  if (std::floor(v) == v && std::abs(v) < 1e9)
    return std::to_string((long)v);
  return "-999999999";
}

template <typename T>
static std::string list(const std::vector<T> &v)
{
  std::string s = "[";
  for (unsigned int k = 0; k < v.size(); ++k) {
    if constexpr (std::is_same_v<T, std::string>)
      s += (k ? "," : "") + v[k];
    else
      s += (k ? "," : "") + num(v[k]);
  }
  return s + "]";
}

struct Layout {
  unsigned int n, np;
  std::vector<unsigned int> lo, hi, nint;
  std::vector<std::vector<unsigned int>> ghosts, cols;
};

// the source of read_in()
struct Source {
  const Utilities::MPI::Partitioner *part;
  int s, d, n, N;
  double el(unsigned int i, unsigned int j) const
  {
    return ((i * N + j) * n + d) * s % 997;
  }
  double operator()(unsigned int i, unsigned int j) const
  {
    return el(part->local_to_global(i), part->local_to_global(j));
  }
};

template <typename Number, int simd, int n>
int go(const Layout &L, char **argv)
{
  const MPI_Comm comm = MPI_COMM_WORLD;
  const unsigned int me = Utilities::MPI::this_mpi_process(comm);
  AssertThrow(Utilities::MPI::n_mpi_processes(comm) == L.np, ExcInternalError());
  IndexSet owned(L.n), relevant(L.n);
  owned.add_range(L.lo[me], L.hi[me]);
  relevant.add_range(L.lo[me], L.hi[me]);
  for (auto g : L.ghosts[me])
    relevant.add_index(g);
  auto part = std::make_shared<Utilities::MPI::Partitioner>(owned, relevant, comm);
  DynamicSparsityPattern dsp(L.n, L.n, relevant);
  for (unsigned int i = L.lo[me]; i < L.hi[me]; ++i)
    for (auto j : L.cols[i])
      dsp.add(i, j);
  SparsityPatternSIMD<simd> sp;
  sp.reinit(L.nint[me], dsp, part);
  SparseMatrixSIMD<Number, n, simd> A;
  A.reinit(sp);
  Vectors::MultiComponentVector<Number, n, simd> V;
  V.reinit_with_scalar_partitioner(part);
  LinearAlgebra::distributed::Vector<Number> S(part);
  using VA = VectorizedArray<Number, simd>;

  const auto position = [&](unsigned int row, unsigned int g) {
    const auto *js = sp.columns(row);
    for (unsigned int k = 0; k < sp.row_length(row); ++k, js += sp.stride_of_row(row))
      if (part->local_to_global(*js) == g)
        return k;
    AssertThrow(false, ExcMessage("no such column"));
    return 0u;
  };

  std::ofstream out(argv[5] + std::string(".") + std::to_string(me));
  std::ifstream in(argv[4]);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::string what;
    is >> what;
    std::vector<long> a;
    for (long v; is >> v;)
      a.push_back(v);
    const bool mine = a.size() > 0 && (unsigned int)a[0] == me;
    if (what == "w" && mine) {
      const unsigned int row = part->global_to_local(a[1]), k = position(row, a[2]);
      Tensor<1, n, Number> t;
      for (int d = 0; d < n; ++d)
        t[d] = a[3 + d];
      if constexpr (n == 1) {
        if (a[2] % 2)
          A.write_entry(t[0], row, k);
        else
          A.write_entry(t, row, k);
      } else
        A.write_entry(t, row, k);
    } else if (what == "W" && mine) {
      const unsigned int row = part->global_to_local(a[1]);
      Tensor<1, n, VA> t;
      for (int l = 0; l < simd; ++l)
        for (int d = 0; d < n; ++d)
          t[d][l] = a[4 + l * n + d];
      A.template write_entry<VA>(t, row, a[2], a[3]);
    } else if (what == "read") {
      // read S LOCAL
      std::array<Source, n> src;
      for (int d = 0; d < n; ++d)
        src[d] = Source{part.get(), (int)a[0], d, n, (int)L.n};
      if constexpr (n == 1)
        A.read_in(src[0], a[1]);
      else
        A.read_in(src, a[1]);
    } else if (what == "start")
      A.update_ghost_rows_start(a[0]);
    else if (what == "finish")
      A.update_ghost_rows_finish();
    else if (what == "exchange")
      A.update_ghost_rows();
    else if (what == "reinit")
      A.reinit(sp);
    else if ((what == "vw" || what == "va") && mine) {
      const unsigned int i = part->global_to_local(a[1]);
      Tensor<1, n, Number> t;
      for (int d = 0; d < n; ++d)
        t[d] = a[2 + d];
      if (what == "vw")
        V.write_tensor(t, i);
      else
        V.add_tensor(t, i);
    } else if ((what == "vW" || what == "vA") && mine) {
      const unsigned int i = part->global_to_local(a[1]);
      Tensor<1, n, VA> t;
      for (int l = 0; l < simd; ++l)
        for (int d = 0; d < n; ++d)
          t[d][l] = a[2 + l * n + d];
      if (what == "vW")
        V.template write_tensor<VA>(t, i);
      else
        V.template add_tensor<VA>(t, i);
    } else if (what == "insert") {
      // insert COMPONENT S
      for (unsigned int i = 0; i < part->locally_owned_size(); ++i)
        S.local_element(i) = (part->local_to_global(i) * a[1] + 7) % 997;
      V.insert_component(S, a[0]);
    } else if (what == "vu")
      V.update_ghost_values();
    else if (what == "vz")
      V.zero_out_ghost_values();
    else if (what == "d") {
      std::vector<std::string> rows;
      for (unsigned int r = 0; r < sp.n_rows(); ++r) {
        const bool vec = r < L.nint[me];
        std::vector<unsigned int> cols;
        std::vector<std::string> v, t, v2, t2;
        const auto *js = sp.columns(r);
        for (unsigned int k = 0; k < sp.row_length(r); ++k, js += sp.stride_of_row(r)) {
          cols.push_back(part->local_to_global(*js));
          std::vector<Number> e, f, e2, f2;
          const auto x = A.get_tensor(r, k), y = A.get_transposed_tensor(r, k);
          for (int d = 0; d < n; ++d) {
            e.push_back(x[d]);
            f.push_back(y[d]);
          }
          if constexpr (n == 1) {
            if (A.get_entry(r, k) != x[0])
              e[0] = -1e8;
            if (A.get_transposed_entry(r, k) != y[0])
              f[0] = -1e8;
          }
          v.push_back(list(e));
          t.push_back(list(f));
          if constexpr (simd > 1) if (vec) {
            const auto x2 = A.template get_tensor<VA>(r / simd * simd, k);
            for (int d = 0; d < n; ++d)
              e2.push_back(x2[d][r % simd]);
            v2.push_back(list(e2));
            if constexpr (n == 1) {
              f2.push_back(A.template get_transposed_tensor<VA>(r / simd * simd, k)[0][r % simd]);
              t2.push_back(list(f2));
            }
          }
        }
        rows.push_back("{\"g\":" + std::to_string(part->local_to_global(r)) + ",\"stride\":" + std::to_string(sp.stride_of_row(r)) +
                       ",\"cols\":" + list(cols) + ",\"v\":" + list(v) + ",\"t\":" + list(t) + ",\"v2\":" + list(v2) + ",\"t2\":" + list(t2) + "}");
      }
      out << list(rows) << std::endl;
    } else if (what == "vd") {
      std::vector<std::string> rows;
      const unsigned int m = part->locally_owned_size() + part->n_ghost_indices();
      std::vector<LinearAlgebra::distributed::Vector<Number>> comp(n, LinearAlgebra::distributed::Vector<Number>(part));
      for (int d = 0; d < n; ++d)
        V.extract_component(comp[d], d);
      for (unsigned int r = 0; r < m; ++r) {
        std::vector<Number> e, e2, e3, e4;
        const auto x = V.get_tensor(r), y = V.get_tensor(&r);
        for (int d = 0; d < n; ++d) {
          e.push_back(x[d]);
          if (y[d] != x[d])
            e[d] = -1e8;
          e4.push_back(comp[d].local_element(r));
        }
        if constexpr (simd > 1) {
          if (r / simd * simd + simd <= L.nint[me]) {
            const auto z = V.template get_tensor<VA>(r / simd * simd);
            for (int d = 0; d < n; ++d)
              e2.push_back(z[d][r % simd]);
          }
          // a gathering access: lane r % simd reads row r, the others neighbours in the index range
          std::array<unsigned int, simd> js;
          for (unsigned int l = 0; l < simd; ++l)
            js[l] = (r + (l + simd - r % simd) * 5) % m;
          js[r % simd] = r;
          const auto z = V.template get_tensor<VA>(js.data());
          for (int d = 0; d < n; ++d)
            e3.push_back(z[d][r % simd]);
        }
        rows.push_back("{\"g\":" + std::to_string(part->local_to_global(r)) + ",\"v\":" + list(e) + ",\"v2\":" + list(e2) +
                       ",\"v3\":" + list(e3) + ",\"x\":" + list(e4) + "}");
      }
      out << list(rows) << std::endl;
    }
  }
  return 0;
}

template <typename Number, int simd>
int comps(const Layout &L, char **argv)
{
  switch (std::atoi(argv[2])) {
  case 1:
    return go<Number, simd, 1>(L, argv);
  case 2:
    return go<Number, simd, 2>(L, argv);
  case 3:
    return go<Number, simd, 3>(L, argv);
  default:
    return go<Number, simd, 4>(L, argv);
  }
}

int main(int argc, char **argv)
{
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  Layout L;
  std::ifstream in(argv[3]);
  in >> L.n >> L.np;
  const auto seq = [&]() {
    unsigned int k;
    in >> k;
    std::vector<unsigned int> v(k);
    for (auto &it : v)
      in >> it;
    return v;
  };
  for (unsigned int p = 0; p < L.np; ++p) {
    unsigned int a, b, c;
    in >> a >> b >> c;
    L.lo.push_back(a);
    L.hi.push_back(b);
    L.nint.push_back(c);
    L.ghosts.push_back(seq());
  }
  for (unsigned int i = 0; i < L.n; ++i)
    L.cols.push_back(seq());
  const std::string which = argv[1];
  if (which == "d1")
    return comps<double, 1>(L, argv);
#ifdef __SSE2__
  if (which == "d2")
    return comps<double, 2>(L, argv);
  if (which == "f4")
    return comps<float, 4>(L, argv);
#endif
  return 2;
}
