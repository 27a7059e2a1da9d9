// Instantiates the toolkit's templates so that the analyser sees resolved code.
// Never executed.
#include <ufjfmltk/Core.hpp>
#include <ufjfmltk/Classifier.hpp>
#include <ufjfmltk/Validation.hpp>
#include <ufjfmltk/Ensemble.hpp>
#include <ufjfmltk/Regressor.hpp>
#include <ufjfmltk/Clusterer.hpp>
#include <ufjfmltk/FeatureSelection.hpp>
#include <ufjfmltk/Visualize.hpp>
#include <ufjfmltk/ensemble/AutoWeightedVoting.hpp>


#ifndef SA_SCALAR
#define SA_SCALAR double
#endif
using D = SA_SCALAR;
namespace mltk {
template class Point<D>;
template class Data<D>;
template class Kernel<D>;
template class Learner<D>;
template class DSM<D>;
template class RSM<D>;
template class OverSampling<D>;
template class SMOTE<D>;
template class BorderlineSMOTEOne<D>;
template class classifier::Classifier<D>;
template class classifier::PrimalClassifier<D>;
template class classifier::DualClassifier<D>;
template class classifier::KNNClassifier<D>;
template class classifier::PerceptronPrimal<D>;
template class classifier::PerceptronFixedMarginPrimal<D>;
template class classifier::PerceptronDual<D>;
template class classifier::PerceptronFixedMarginDual<D>;
template class classifier::BalancedPerceptron<D>;
template class classifier::IMAp<D>;
template class classifier::IMApFixedMargin<D>;
template class classifier::IMADual<D>;
template class classifier::SMO<D>;
using PP = classifier::PerceptronPrimal<D>;
template class classifier::OneVsAll<D>;
template class classifier::OneVsOne<D>;
template struct validation::TrainTestPair<D>;
template class ensemble::AdaBoostClassifier<D>;
template class ensemble::BaggingClassifier<D>;
template class ensemble::VotingClassifier<D>;
template class ensemble::PerceptronCommittee<D>;
template class ensemble::AutoWeightedVoting<D>;
template class regressor::Regressor<D>;
template class regressor::PrimalRegressor<D>;
template class regressor::DualRegressor<D>;
template class regressor::KNNRegressor<D>;
template class regressor::LMSPrimal<D>;
template class clusterer::Clusterer<D>;
template class clusterer::KMeans<D>;
template class featselect::FeatureSelection<D>;
template class featselect::Fisher<D>;
template class featselect::Golub<D>;
template class featselect::RFE<D>;
template class featselect::AOS<D>;
template class visualize::Visualization<D>;
namespace metrics::dist {
#define M(X) template class X<D>;
M(Euclidean) M(Manhattan) M(Chebyshev) M(Lorentzian) M(Canberra) M(Sorensen) M(AvgManhattan) M(NonIntersection)
M(Jaccard) M(Cosine) M(Dice) M(Chord) M(Bhattacharyya) M(SquaredChord) M(Matusita) M(Hellinger) M(SquaredEuclidean)
M(Clark) M(Neyman) M(Pearson) M(Squared) M(ProbabilisticSymmetric) M(Divergence) M(AdditiveSymmetric) M(Average)
M(SquaredChiSquared) M(KullbackLeibler) M(Jeffreys) M(KDivergence) M(Topsoe) M(JensenShannon) M(JensenDifference)
M(MaxSymmetric) M(MinSymmetric) M(AverageL1Linf) M(KumarJohnson) M(Taneja) M(Hassanat)
#undef M
template class DistanceMatrix<Euclidean<D>>;
}
}
#include "uses.hpp"
