// Never-executed uses: forces instantiation of the namespace-level function
// templates and of the templated constructors.  Nothing here is run.
#pragma once
#include <ufjfmltk/core/Datasets.hpp>
#include <ufjfmltk/core/ThreadPool.hpp>
namespace sa_driver {
using namespace mltk;
inline void u_points(Point<D> p, Point<D> q, std::vector<D> v) {
  Point<int> pi(3, 1);
  (void)dot(p, q); (void)mltk::max(p); (void)mltk::min(p); (void)p.norm(2); (void)mltk::norm(p, 2);
  random_init<D>(p, (size_t)3, (size_t)7); random_init<D>((size_t)3, (size_t)7); random_init<D>(0.0, 1.0, (size_t)3, (size_t)7); random_init<D>(p, (size_t)7);
  Point<D> r = mltk::abs(p); r = mltk::cos(p); r = mltk::sin(p); r = mltk::exp(p); r = mltk::log(p); r = mltk::pow(p, 2); r = mltk::pow(p, 2.0);
  r = mltk::normalize(p, 2.0); r = mltk::normalize(v, 2.0); r = linspace<D>(0, 1, 3);
  r = p + q; r = 1.0 + p; r = 1 + p; r = p + 1.0; r = p + 1; r = p - q; r = 1.0 - p; r = 1 - p; r = p - 1.0; r = p - 1;
  r = p * q; r = 2.0 * p; r = 2 * p; r = p * 2.0; r = p * 2; r = p / q; r = p / 2.0; r = p / 2; r = 1.0 / p; r = 1 / p;
  r += p; r -= p; r *= p; r /= p; r += 1.0; r -= 1.0; r *= 1.0; r /= 1.0; r += 1; r -= 1; r *= 1; r /= 1; r += (p + q); r -= (p * q); r *= (p + q); r /= (p + q);
  r = p; Point<D> cp(p); r = p + q * 2.0 - mltk::abs(q); (void)(p == q); (void)(p != q); r = 1.0; r = 1; r = v;
  std::cout << p; (void)r.sum(); (void)mltk::pow(p - 1.0, 2).sum(); (void)((p - 1.0) * (q - 1.0)).sum();
  Point<int> r2 = pi % 2; (void)make_point<D>((size_t)3, 1.0); r.resize((size_t)3); r.assign((size_t)3, 1.0); r.erase(r.X().begin(), r.X().end());
  Point<D> ri(pi); r = ri;
}
inline void u_data(Data<D> &d, const Data<D> &c, Point<D> p) {
  auto m = make_data<D>(c); auto m2 = make_data<D>(); std::cout << c; Data<D> e(c), f; f = c;
  (void)m; (void)m2; (void)e; (void)f;
}
inline void u_stats(Data<D> &d, Point<D> p) {
  using namespace mltk::stats;
  (void)mean(p); (void)mean(d, (size_t)0); (void)std_dev(p); (void)std_dev(d, (size_t)0); (void)var(p); (void)var(d, (size_t)0); (void)covar(p, p);
  (void)radius(d, 0, 2.0); (void)distCenters(d, 0); std::vector<int> fs; (void)distCentersWithoutFeats(d, fs, 0);
}
inline void u_random() {
  (void)random::intInRange(0, 3); (void)random::floatInRange<D>(0.0, 1.0);
}
inline void u_valid(Data<D> &d, classifier::PerceptronPrimal<D> &p, classifier::PerceptronDual<D> &dl, Point<int> li) {
  using namespace mltk::validation;
  (void)kfold<D>(d, p, (size_t)5, true, (size_t)1, 0); (void)kkfold<D>(d, p, (size_t)2, (size_t)5, true, (size_t)1, 0);
  (void)kfoldsplit<D>(d, (size_t)5, true, true, (size_t)1); (void)kfoldsplit<D>(d, (size_t)5, (size_t)2, true, true, (size_t)1);
  (void)partTrainTest<D>(d, (size_t)5, true, true, (size_t)1);
  (void)accuracy(d, p); auto m = generateConfusionMatrix<D>(d, p); (void)metricsReport(d, m); (void)confusionMatrixAccuracy(m); (void)classificationReport(li, li).print();
}
inline void u_class(Data<D> &d, classifier::PerceptronPrimal<D> &p, classifier::PerceptronDual<D> &dl) {
  classifier::OneVsAll<D> a(d, p); classifier::OneVsOne<D> b(d, p), c(p); a.train(); b.train();
  classifier::PerceptronPrimal<D> p2(p); classifier::PerceptronDual<D> d2(dl); classifier::SMO<D> s(d), s2(s); classifier::IMADual<D> i(d), i2(i); classifier::PerceptronFixedMarginDual<D> f(d), f2(f);
}
inline void u_ens(Data<D> &d, classifier::PerceptronPrimal<D> p, classifier::KNNClassifier<D> k) {
  ensemble::VotingClassifier<D> v(d, "hard", p, k); ensemble::BaggingClassifier<D> b(d, p, 3); ensemble::AdaBoostClassifier<D> a(d, p, (size_t)3); ensemble::PerceptronCommittee<D> c(d, 3);
}
inline void u_reg(Point<D> p) { (void)metrics::MSE(p, p); }
inline void u_clu(Data<D> &d) { clusterer::KMeans<D> k(d, 2); k.train(); }
inline void u_fs(Data<D> &d, classifier::PerceptronPrimal<D> &p) { }
inline void u_vis(Data<D> &d, classifier::PerceptronPrimal<D> &p, std::vector<double> v, Gnuplot g) {
  visualize::Visualization<D> vis(d); vis.plotDecisionSurface2D(p); 
  g.plot_x(v); g.plot_xy(v, v); g.plot_xy_err(v, v, v); g.plot_xyz(v, v, v);
  std::vector<std::string> toks; std::string s; stringtok(toks, s);
}
inline int sq(const int &x) { return x; }
inline void nop(const int &x) {}
inline void u_pool(ThreadPool &pool) {
  auto loop = [](const int a, const int b) {}; pool.parallelize_loop(0, 10, loop); pool.push_task(nop, 3); (void)pool.submit(nop, 3); (void)pool.submit(sq, 3);
  synced_stream st; st.println("x"); st.print("x");
}
}
