// P27: programs a user can write, as witnesses. Only ever type-checked, never linked or run.
#include "drv.cpp"
#include <ufjfmltk/ensemble/AutoWeightedVoting.hpp>
#include <type_traits>
namespace mltk {
template class ensemble::Ensemble<D>;
template class metrics::dist::DistanceMatrix<metrics::dist::Manhattan<D>>;
template class classifier::KNNClassifier<D, metrics::dist::Manhattan<D>>;
template class clusterer::KMeans<D, metrics::dist::Manhattan<D>>;
}
namespace sa_witness {
using namespace mltk;
// --- reading a dataset or point never needs a non-const object
void const_data(const Data<D> &c) {
  (void)c.getType(); (void)c.isClassification(); (void)c.name(); (void)c.size(); (void)c.dim(); (void)c.points(); (void)c.classes();
  (void)c.point(0); (void)c.getFeature(0); (void)c.getLabels(); (void)c.labels(); (void)c.classesDistribution(); (void)c.classesNames();
  (void)c.getFeaturesNames(); (void)c.featuresNames(); (void)c.getIndex(); (void)c.getTime_mult(); (void)c.isEmpty(); (void)c.isNormalized();
  (void)c.copy(); (void)c[0]; (void)c(0); (void)(c == c); (void)(c != c); (void)c.removeFeatures(std::vector<int>{1}, 1);
  for (const auto &p : c) (void)p->Y();
  (void)(c.begin() == c.end());
}
void const_point(const Point<D> &p, const Point<D> &q) {
  (void)p.size(); (void)p.empty(); (void)p[0]; (void)p.norm(); (void)p.norm(2); (void)p.selectFeatures(std::vector<size_t>{0}); (void)(p == q); (void)(p != q);
  (void)p.X(); (void)p.Y(); (void)p.Id(); (void)p.Alpha(); (void)p.sum(); (void)dot(p, q); (void)mltk::norm(p, 2); (void)mltk::max(p); (void)mltk::min(p);
  for (const auto &x : p) (void)x;
}
void const_kernel(const Kernel<D> &k, const Data<D> &c) { (void)k.size(); (void)k[0]; (void)k.function(c[0], c[0], 1); }
void const_stats(const Data<D> &d, const Point<D> &p) {
  (void)stats::mean(p); (void)stats::mean(d, (size_t)0); (void)stats::std_dev(p); (void)stats::var(p); (void)stats::covar(p, p);
  (void)stats::radius(d, 0, 2.0); (void)stats::distCenters(d, 0);
}
// --- points are made, copied, moved and combined in every documented way
void points(std::vector<D> v, Point<D> p, Point<D> q) {
  Point<D> a, b(3), c(3, D(1)), d(3, D(1), 7), e(v), f{D(1), D(2)}, g(p), h(p + q);
  a = p; a = p + q * 2.0 - mltk::abs(q); a = v; a = 1.0; a = std::move(b); auto l = p + q; a = l; (void)l[0]; (void)l.size();
  a += p; a -= p * 2; a *= 2; a /= (p + 1); a.resize((size_t)4); a[0] = 3; a.Y() = 1; a.Id() = 2; a.Alpha() = 0.5;
  (void)c; (void)d; (void)e; (void)f; (void)g; (void)h; std::cout << a << p;
  Point<int> i(3, 1); i = i + i; (void)dot(i, i);
}
// --- learners behind their common interface
static_assert(std::has_virtual_destructor_v<Learner<D>>, "learners are destroyed through their base class");
static_assert(std::has_virtual_destructor_v<clusterer::Clusterer<D>>, "clusterers are destroyed through their base class");
static_assert(std::is_abstract_v<Learner<D>>, "a learner without train and evaluate is no learner");
template <class L, bool Default = true> void learner(std::shared_ptr<L> l) {
  static_assert(std::is_base_of_v<Learner<D>, L>, "is a learner");
  static_assert(!std::is_abstract_v<L>, "can be used as it is");
  static_assert(std::is_copy_constructible_v<L>, "can be handed to an ensemble by value");
  static_assert(!Default || std::is_default_constructible_v<L>, "can be made before its dataset");
  static_assert(std::is_convertible_v<L *, Learner<D> *>, "unambiguous learner");
  LearnerPointer<D> p = l;
  Data<D> d; Point<D> x;
  (void)p->train(); (void)p->evaluate(x); (void)p->evaluate(x, true); p->setSamples(std::make_shared<Data<D>>(d)); p->setSamples(d); p->setSeed(1); p->setVerbose(0);
  p->setMaxIterations(1); p->setMaxEpochs(1); p->setMaxUpdates(1); p->setMaxTime(1.0); (void)p->getFormulationString();
}
void learners() {
  learner<classifier::PerceptronPrimal<D>>(nullptr);
  learner<classifier::PerceptronFixedMarginPrimal<D>>(nullptr);
  learner<classifier::PerceptronDual<D>>(nullptr);
  learner<classifier::PerceptronFixedMarginDual<D>>(nullptr);
  learner<classifier::BalancedPerceptron<D>>(nullptr);
  learner<classifier::IMAp<D>>(nullptr);
  learner<classifier::IMApFixedMargin<D>>(nullptr);
  learner<classifier::IMADual<D>>(nullptr);
  learner<classifier::SMO<D>>(nullptr);
  learner<classifier::KNNClassifier<D>>(nullptr);
  learner<classifier::OneVsAll<D>>(nullptr);
  learner<classifier::OneVsOne<D>>(nullptr);
  learner<ensemble::VotingClassifier<D>>(nullptr);
  learner<ensemble::BaggingClassifier<D>>(nullptr);
  learner<ensemble::AdaBoostClassifier<D>>(nullptr);
  learner<ensemble::PerceptronCommittee<D>, false>(nullptr);
  learner<regressor::KNNRegressor<D>>(nullptr);
  learner<regressor::LMSPrimal<D>>(nullptr);
}
void kernel_learners(Data<D> d, Kernel<D> *k, Kernel<D> kk) {
  classifier::PerceptronDual<D> a(d, KernelType::GAUSSIAN, 1.0); classifier::SMO<D> b(d, KernelType::POLYNOMIAL, 2.0); classifier::IMADual<D> c(d, KernelType::INNER_PRODUCT, 1.0);
  (void)a.getKernel(); (void)kk;
  static_assert(std::is_base_of_v<classifier::DualClassifier<D>, classifier::SMO<D>>);
  static_assert(std::is_base_of_v<classifier::PrimalClassifier<D>, classifier::IMAp<D>>);
}
void ensembles(Data<D> d, classifier::KNNClassifier<D> knn, classifier::PerceptronPrimal<D> p) {
  ensemble::VotingClassifier<D> v(d, "soft", knn, p); v.setWeights(std::vector<double>{1, 1}); (void)v.getWeights();
  ensemble::AutoWeightedVoting<D> w(d, true, knn, p); (void)w.getVoter();
  for (auto &l : v) (void)l->evaluate(Point<D>()); 
  (void)v.learners(); (void)v[0];
}
void nearest(Data<D> d) {
  classifier::KNNClassifier<D> k(d, 3); metrics::dist::DistanceMatrix<> plain; 
  k.setPrecomputedDistances(k.precomputeDistances(d)); k.setPrecomputedDistances(metrics::dist::DistanceMatrix<metrics::dist::Euclidean<D>>(d, true, 2)); (void)k.metric();
  (void)plain.size();
}
void reports(Data<D> d, classifier::PerceptronPrimal<D> &p, ensemble::VotingClassifier<D> &v) {
  (void)validation::kfold<D>(d, v, (size_t)5, true, (size_t)1, 0); (void)validation::accuracy(d, v);
  validation::ValidationReport r; (void)r; (void)validation::partTrainTest<D>(d, (size_t)5);
}
// --- what must not compile: a running pool or console lock cannot be copied
static_assert(!std::is_copy_constructible_v<ThreadPool>, "a pool of running threads cannot be copied");
static_assert(!std::is_copy_assignable_v<ThreadPool>, "a pool of running threads cannot be assigned");
static_assert(!std::is_copy_constructible_v<synced_stream>, "a stream lock cannot be copied");
static_assert(!std::is_convertible_v<size_t, Point<D>>, "a size is not a point");
static_assert(!std::is_convertible_v<size_t, classifier::KNNClassifier<D>>, "a number is not a classifier");
void pool(ThreadPool &p) {
  auto f = p.submit([](int a) { return a; }, 3); static_assert(std::is_same_v<decltype(f), std::future<int>>, "submit hands back the task's own result");
  auto g = p.submit([](int) {}, 3); static_assert(std::is_same_v<decltype(g.get()), bool>, "submit of a procedure reports completion");
  p.push_task([] {}); p.parallelize_loop(0, 3, [](int, int) {}); p.parallelize_loop(0, 3, [](int, int) {}, 2); p.wait_for_tasks(); p.reset(2);
  (void)p.get_tasks_queued(); (void)p.get_tasks_running(); (void)p.get_tasks_total(); (void)p.get_thread_count(); p.paused = true;
}
// --- figures keep the precision they are computed in
static_assert(std::is_same_v<decltype(mltk::dot(std::declval<Point<D>>(), std::declval<Point<D>>())), D>, "dot product of points keeps their type");
static_assert(std::is_floating_point_v<decltype(std::declval<Point<D>>().norm())>, "norms are real");
static_assert(std::is_floating_point_v<decltype(std::declval<Learner<D> &>().evaluate(std::declval<Point<D>>()))>, "predictions are real");
static_assert(std::is_floating_point_v<decltype(stats::radius(std::declval<Data<D>>(), 0, 2.0))>, "radii are real");
static_assert(std::is_floating_point_v<decltype(validation::accuracy(std::declval<Data<D> &>(), std::declval<classifier::PerceptronPrimal<D> &>()))>, "accuracies are real");
}
