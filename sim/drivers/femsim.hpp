// Shared by the finite-element drivers: random meshes, partitions, fields.
#ifndef VERIF_FEMSIM_HPP
#define VERIF_FEMSIM_HPP
#include <cmath>
#include <memory>
#include <vector>
#include "mfem.hpp"
#include "sim.hpp"

namespace femsim
{
using namespace mfem;
using namespace sim;

struct MeshSpec
{
   int dim = 3;
   Element::Type type = Element::TETRAHEDRON;
   int n[3] = {1, 1, 1};
   int nodeOrder = 1;
   double amp = 0.05;
   double ph[3] = {0, 0, 0};
   int nranks = 1;
   std::vector<int> part;
   int ne = 0;
   bool surf = false;

   void warp(double t, const double *X, double *Y) const
   {
      double s[3] = {0, 0, 0};
      for (int d = 0; d < dim; ++d) { s[d] = X[d]; }
      for (int d = 0; d < dim; ++d)
      {
         Y[d] = X[d] + amp * (1 + 0.5 * t) * std::sin(2.1 * s[(d + 1) % dim] + 1.3 * s[d] + ph[d] + 0.7 * t);
      }
   }
   Mesh serialRaw() const
   {
      if (dim == 3) { return Mesh::MakeCartesian3D(n[0], n[1], n[2], type, 1.0, 1.0, 1.0, true); }
      if (dim == 2) { return Mesh::MakeCartesian2D(n[0], n[1], type, true, 1.0, 1.0, true); }
      return Mesh::MakeCartesian1D(n[0], 1.0);
   }
   Mesh serial(double t = 0.0) const
   {
      Mesh m = serialRaw();
      m.SetCurvature(nodeOrder, false, dim, Ordering::byNODES);
      deform(*m.GetNodes(), *m.GetNodes(), t);
      return m;
   }
   /// nodes := warp_t(X0), X0 the undeformed nodes
   void deform(GridFunction &nodes, const Vector &X0, double t) const
   {
      Vector base(X0);
      FiniteElementSpace *fes = nodes.FESpace();
      int nd = fes->GetNDofs();
      for (int i = 0; i < nd; ++i)
      {
         double a[3] = {0, 0, 0}, b[3] = {0, 0, 0};
         for (int d = 0; d < dim; ++d) { a[d] = base(fes->DofToVDof(i, d)); }
         warp(t, a, b);
         for (int d = 0; d < dim; ++d) { nodes(fes->DofToVDof(i, d)) = b[d]; }
      }
   }
   void finish()
   {
      Mesh m = serialRaw();
      ne = m.GetNE();
      if (nranks > ne) { nranks = ne; }
      part.assign(size_t(ne), 0);
      int kind = int(gen(3));
      for (int e = 0; e < ne; ++e)
      {
         if (kind == 0) { part[size_t(e)] = e * nranks / ne; }
         else if (kind == 1) { part[size_t(e)] = e % nranks; }
         else { part[size_t(e)] = int(gen(uint32_t(nranks))); }
      }
      if (kind == 2)
      {
         // no rank without elements
         for (int r = 0; r < nranks; ++r)
         {
            bool has = false;
            for (int p : part) { has = has || p == r; }
            if (!has)
            {
               std::vector<int> cnt(size_t(nranks), 0);
               for (int p : part) { ++cnt[size_t(p)]; }
               for (int e = 0; e < ne; ++e)
               {
                  if (cnt[size_t(part[size_t(e)])] > 1) { part[size_t(e)] = r; break; }
               }
            }
         }
      }
   }
   std::unique_ptr<ParMesh> parallel(double t = 0.0) const
   {
      Mesh m = serial(t);
      if (size() == 1) { return std::make_unique<ParMesh>(MPI_COMM_WORLD, m); }
      std::vector<int> p(part);
      auto pm = std::make_unique<ParMesh>(MPI_COMM_WORLD, m, p.data());
      return pm;
   }
   std::string str() const
   {
      return fmt("%dD %s %dx%dx%d (%d elements, nodes of order %d) on %d ranks", dim,
                 type == Element::TETRAHEDRON ? "tets" : type == Element::HEXAHEDRON ? "hexes" : type == Element::TRIANGLE ? "triangles" : type == Element::QUADRILATERAL ? "quads" : "segments",
                 n[0], n[1], n[2], ne, nodeOrder, nranks);
   }
};
inline MeshSpec genMesh(int dim, int maxCells, int maxRanks, bool tensor, bool simplex)
{
   MeshSpec s;
   s.dim = dim;
   bool tp = tensor && (!simplex || gen(2));
   s.type = dim == 3 ? (tp ? Element::HEXAHEDRON : Element::TETRAHEDRON)
                     : dim == 2 ? (tp ? Element::QUADRILATERAL : Element::TRIANGLE) : Element::SEGMENT;
   for (int d = 0; d < dim; ++d) { s.n[d] = genInt(1, 3); }
   auto cells = [&]() { int k = 1; for (int d = 0; d < dim; ++d) { k *= s.n[d]; } return k * (dim == 3 && !tp ? 6 : dim == 2 && !tp ? 2 : 1); };
   for (int d = 0; d < dim; ++d)
   {
      while (cells() > maxCells && s.n[d] > 1) { --s.n[d]; }
   }
   if (cells() == 1) { s.n[0] = 2; }
   s.nodeOrder = genInt(1, 2);
   s.amp = gen(4) ? genIn(0.0, 0.06) : 0.0;
   for (int d = 0; d < 3; ++d) { s.ph[d] = genIn(0, 6.28); }
   s.nranks = genInt(1, maxRanks);
   s.finish();
   return s;
}
inline void hashMesh(const MeshSpec &s)
{
   uint64_t v = uint64_t(s.dim) * 1000 + uint64_t(s.nranks) * 100 + uint64_t(s.ne) + 7919ull * uint64_t(s.type);
   signature(v);
   for (int p : s.part) { signature(uint64_t(p) + 3); }
}
/// smooth random field, a function of the coordinates only
struct Field
{
   double a[3][3], w[3][3][3], p[3][3];
   void eval(const double *x, int dim, double *v, int nc) const
   {
      for (int c = 0; c < nc; ++c)
      {
         double s = 0;
         for (int k = 0; k < 3; ++k)
         {
            double t = p[c % 3][k] + c / 3;
            for (int d = 0; d < dim; ++d) { t += w[c % 3][k][d] * x[d]; }
            s += a[c % 3][k] * std::sin(t);
         }
         v[c] = s;
      }
   }
   std::function<void(const Vector &, Vector &)> vec() const
   {
      Field f = *this;
      return [f](const Vector &x, Vector &v) { f.eval(x.GetData(), x.Size(), v.GetData(), v.Size()); };
   }
   std::function<double(const Vector &)> sca() const
   {
      Field f = *this;
      return [f](const Vector &x) { double v; f.eval(x.GetData(), x.Size(), &v, 1); return v; };
   }
};
inline Field genField(double mag = 1.0)
{
   Field f;
   for (int c = 0; c < 3; ++c)
   {
      for (int k = 0; k < 3; ++k)
      {
         f.a[c][k] = mag * genIn(-1, 1);
         f.p[c][k] = genIn(0, 6.28);
         for (int d = 0; d < 3; ++d) { f.w[c][k][d] = genIn(-3, 3); }
      }
   }
   return f;
}
inline double gsum(double v)
{
   double s = 0;
   MPI_Allreduce(&v, &s, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
   return s;
}
inline double gmax(double v)
{
   double s = 0;
   MPI_Allreduce(&v, &s, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
   return s;
}
inline double gdot(const Vector &a, const Vector &b) { return gsum(a * b); }
inline double gnorm(const Vector &a) { return std::sqrt(gdot(a, a)); }
inline void checkThrew(const JobResult &r)
{
   for (size_t i = 0; i < r.threw.size(); ++i)
   {
      SIM_CHECK(r.threw[i].empty(), "unexpected-exception", "rank %zu: %s", i, r.threw[i].c_str());
   }
}
}  // namespace femsim
#endif
