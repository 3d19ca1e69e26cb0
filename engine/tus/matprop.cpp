// instantiates the variadic constructor of MatrixProperties with every subset of annotations
#include "internal/MatrixProperties.cpp"
namespace vp_tu
{
using P = tvm::internal::MatrixProperties;
void inst(P::Shape s, P::Positiveness p, P::Constness c, P::Invertibility i)
{
  P p1(s), p2(p), p3(c), p4(i);
  P q1(s, p), q2(s, c), q3(s, i), q4(p, c), q5(p, i), q6(c, i), q7(p, s), q8(i, c);
  P r1(s, p, c), r2(s, p, i), r3(s, c, i), r4(p, c, i), r5(i, c, p, s);
  P t(s, p, c, i);
}
} // namespace vp_tu
