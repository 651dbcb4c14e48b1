From 3f7de73b58e2eba023f99dedbbc23f64152233ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 01/59] Add observation hooks guarded by RODEO_VERIF

---
 src/INCLUDE/verif_hooks.hpp                   | 60 +++++++++++++++++++
 .../efficient_global_optimization.cpp         | 16 +++++
 src/Optimizers/optimization.cpp               | 39 ++++++++++++
 src/SurrogateModels/kriging_training.cpp      |  5 ++
 4 files changed, 120 insertions(+)
 create mode 100644 src/INCLUDE/verif_hooks.hpp

diff --git a/src/INCLUDE/verif_hooks.hpp b/src/INCLUDE/verif_hooks.hpp
new file mode 100644
index 0000000..745522c
--- /dev/null
+++ b/src/INCLUDE/verif_hooks.hpp
@@ -0,0 +1,60 @@
+#ifndef RODEO_VERIF_HOOKS_HPP
+#define RODEO_VERIF_HOOKS_HPP
+
+/* Observation points for the model-based verification framework.
+ *
+ * Everything here is active only if RODEO_VERIF is defined; otherwise the
+ * macros expand to nothing. A verification harness installs a sink, which is
+ * then called synchronously (possibly from several threads) with the name of
+ * the event and its numeric fields.
+ */
+
+#ifdef RODEO_VERIF
+
+#include <functional>
+#include <utility>
+#include <vector>
+
+namespace Rodop{
+namespace verif{
+
+using Values = std::vector<double>;
+using Fields = std::vector<std::pair<const char*, Values> >;
+using Sink = std::function<void(const char*, const Fields&)>;
+
+inline Sink sink;
+
+inline void emit(const char* eventName, const Fields& eventFields){
+	if(sink) sink(eventName, eventFields);
+}
+
+template<typename T> Values num(const T& scalar){
+	return Values(1, static_cast<double>(scalar));
+}
+
+template<typename V> Values arr(const V& v){
+	Values result;
+	for(unsigned int i=0; i<v.getSize(); i++) result.push_back(v(i));
+	return result;
+}
+
+template<typename M> Values rows(const M& m){
+	Values result;
+	for(unsigned int i=0; i<m.getNRows(); i++){
+		for(unsigned int j=0; j<m.getNCols(); j++) result.push_back(m(i,j));
+	}
+	return result;
+}
+
+} /* Namespace verif */
+} /* Namespace Rodop */
+
+#define RODEO_VERIF_EVENT(...) ::Rodop::verif::emit(__VA_ARGS__)
+
+#else
+
+#define RODEO_VERIF_EVENT(...) ((void)0)
+
+#endif
+
+#endif
diff --git a/src/Optimizers/efficient_global_optimization.cpp b/src/Optimizers/efficient_global_optimization.cpp
index a0ad649..2bcc678 100644
--- a/src/Optimizers/efficient_global_optimization.cpp
+++ b/src/Optimizers/efficient_global_optimization.cpp
@@ -1,5 +1,6 @@
 #include "./INCLUDE/optimization.hpp"
 #include "./INCLUDE/aux.hpp"
+#include "../INCLUDE/verif_hooks.hpp"
 #include<cassert>
 
 namespace Rodop{
@@ -13,11 +14,13 @@ void Optimizer::performEfficientGlobalOptimizationOnlyWithFunctionalValues(void)
 
 		outerIterationNumber++;
 		printIterationNumber();
+		RODEO_VERIF_EVENT("iteration", {{"iter", verif::num(outerIterationNumber)}});
 
 
 		if(outerIterationNumber%howOftenTrainModels == 1) {
 			initializeSurrogates();
 			trainSurrogates();
+			RODEO_VERIF_EVENT("trained", {{"iter", verif::num(outerIterationNumber)}});
 		}
 
 		findTheMostPromisingDesignToBeSimulated();
@@ -35,6 +38,13 @@ void Optimizer::performEfficientGlobalOptimizationOnlyWithFunctionalValues(void)
 
 		abortIfCurrentDesignHasANaN();
 
+		RODEO_VERIF_EVENT("evaluated", {{"dv", verif::arr(currentBestDesign.designParameters)},
+			{"objective", verif::num(currentBestDesign.trueValue)},
+			{"constraints", verif::arr(currentBestDesign.constraintTrueValues)},
+			{"feasible", verif::num(currentBestDesign.isDesignFeasible)},
+			{"improvement", verif::num(currentBestDesign.improvementValue)},
+			{"reference", verif::num(bestFeasibleInitialValue)}});
+
 		printCurrentDesignToLogFile();
 
 		printInfoToLog("Adding new sample to the objective function training data...");
@@ -45,6 +55,7 @@ void Optimizer::performEfficientGlobalOptimizationOnlyWithFunctionalValues(void)
 		}
 
 		history.updateOptimizationHistory(currentBestDesign);
+		RODEO_VERIF_EVENT("recorded", {{"history", verif::rows(history.getData())}});
 
 		if(currentBestDesign.improvementValue > globalOptimalDesign.improvementValue){
 
@@ -106,6 +117,11 @@ void Optimizer::performEfficientGlobalOptimizationOnlyWithFunctionalValues(void)
 			sigmaMultiplier = sigmaMultiplier*sigmaGrowthFactor;
 		}
 
+		RODEO_VERIF_EVENT("region", {{"length", verif::num(trLength)},
+			{"success", verif::num(trSuccessCounter)}, {"failure", verif::num(trFailureCounter)},
+			{"multiplier", verif::num(sigmaMultiplier)}, {"sigma", verif::num(sigmaFactor)},
+			{"bestDelta", verif::num(bestDeltaImprovementValueAchieved)}});
+
 
 		findTheGlobalOptimalDesign();
 
diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index e30092f..e41f147 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -16,6 +16,7 @@
 #include "./INCLUDE/aux.hpp"
 #include "./INCLUDE/optimization_logger.hpp"
 #include "../LinearAlgebra/INCLUDE/vector.hpp"
+#include "../INCLUDE/verif_hooks.hpp"
 
 namespace Rodop{
 
@@ -331,6 +332,10 @@ void Optimizer::findTheGlobalOptimalDesign() {
 	}
 
 	printInfoToLog("Global optimal design successfully found and saved.");
+	RODEO_VERIF_EVENT("best", {{"id", verif::num(globalOptimalDesign.ID)}, {"objective", verif::num(globalOptimalDesign.trueValue)},
+		{"feasible", verif::num(globalOptimalDesign.isDesignFeasible)}, {"improvement", verif::num(globalOptimalDesign.improvementValue)},
+		{"dv", verif::arr(globalOptimalDesign.designParameters)}, {"dvNormalized", verif::arr(globalOptimalDesign.designParametersNormalized)},
+		{"constraints", verif::arr(globalOptimalDesign.constraintTrueValues)}});
 }
 
 void Optimizer::validateFactorGradientStepWindow() {
@@ -366,6 +371,10 @@ void Optimizer::defineTrustRegion(void) {
 	printInfoToLog("Lower bounds for inner optimization = " + lowerBoundsForAcqusitionFunctionMaximization.toString());
 	printInfoToLog("Upper bounds for inner optimization = " + upperBoundsForAcqusitionFunctionMaximization.toString());
 
+	RODEO_VERIF_EVENT("window", {{"length", verif::num(trLength)}, {"center", verif::arr(dv)},
+		{"lb", verif::arr(lowerBoundsForAcqusitionFunctionMaximization)},
+		{"ub", verif::arr(upperBoundsForAcqusitionFunctionMaximization)}});
+
 }
 
 void Optimizer::changeSettingsForAGradientBasedStep(void) {
@@ -687,6 +696,8 @@ void Optimizer::searchAroundGlobalOptima(DesignForBayesianOptimization &designWi
 			designToBeTried.generateRandomDesignVectorAroundASample(dv0, lb,ub);
 			objFun.calculateExpectedImprovement(designToBeTried);
 			addPenaltyToAcqusitionFunctionForConstraints(designToBeTried);
+			RODEO_VERIF_EVENT("candidate", {{"phase", verif::num(2)}, {"value", verif::num(designToBeTried.valueAcquisitionFunction)},
+				{"dv", verif::arr(designToBeTried.dv)}});
 			if (designToBeTried.valueAcquisitionFunction
 					> designWithMaxAcqusition.valueAcquisitionFunction) {
 #ifdef OPENMP_SUPPORT
@@ -727,6 +738,8 @@ void Optimizer::searchCompleteDesignSpace(DesignForBayesianOptimization &designW
 		designToBeTried.generateRandomDesignVector(lb, ub);
 		objFun.calculateExpectedImprovement(designToBeTried);
 		addPenaltyToAcqusitionFunctionForConstraints(designToBeTried);
+		RODEO_VERIF_EVENT("candidate", {{"phase", verif::num(1)}, {"value", verif::num(designToBeTried.valueAcquisitionFunction)},
+			{"dv", verif::arr(designToBeTried.dv)}});
 		if (designToBeTried.valueAcquisitionFunction
 				> designWithMaxAcqusition.valueAcquisitionFunction) {
 #ifdef OPENMP_SUPPORT
@@ -777,6 +790,8 @@ void Optimizer::findTheMostPromisingDesignEGO(void){
 	searchAroundGlobalOptima(designWithMaxAcqusition);
 
 	printInfoToLog(designWithMaxAcqusition.toString());
+	RODEO_VERIF_EVENT("searched", {{"inner", verif::num(iterMaxAcquisitionFunction)},
+		{"value", verif::num(designWithMaxAcqusition.valueAcquisitionFunction)}, {"dv", verif::arr(designWithMaxAcqusition.dv)}});
 
 	theMostPromisingDesigns.push_back(designWithMaxAcqusition);
 	numberOfGlobalSearchSteps++;
@@ -905,6 +920,19 @@ DesignForBayesianOptimization Optimizer::maximizeAcqusitionFunctionGradientBased
 	} /* end of gradient-search loop */
 
 	printInfoToLog(bestDesign.toString());
+
+#ifdef RODEO_VERIF
+	DesignForBayesianOptimization designBefore = initialDesign;
+	DesignForBayesianOptimization designAfter = bestDesign;
+	objFun.calculateExpectedImprovement(designBefore);
+	addPenaltyToAcqusitionFunctionForConstraints(designBefore);
+	objFun.calculateExpectedImprovement(designAfter);
+	addPenaltyToAcqusitionFunctionForConstraints(designAfter);
+	RODEO_VERIF_EVENT("ascent", {{"before", verif::num(designBefore.valueAcquisitionFunction)},
+		{"after", verif::num(designAfter.valueAcquisitionFunction)},
+		{"dvBefore", verif::arr(initialDesign.dv)}, {"dvAfter", verif::arr(bestDesign.dv)}});
+#endif
+
 	return bestDesign;
 
 }
@@ -1112,6 +1140,8 @@ void Optimizer::initializeOptimizationHistory() {
 		history.calculateCrowdingFactor();
 		crowdingCoefficient = history.getCrowdingFactor() * sigmaFactor;
 	}
+
+	RODEO_VERIF_EVENT("initialized", {{"reference", verif::num(bestFeasibleInitialValue)}, {"history", verif::rows(history.getData())}});
 }
 
 void Optimizer::setOptimizationHistoryData(void) {
@@ -1208,6 +1238,15 @@ void Optimizer::findTheMostPromisingDesignToBeSimulated() {
 	currentBestDesign.designParametersNormalized = best_dvNorm;
 	currentBestDesign.designParameters = best_dv;
 
+	RODEO_VERIF_EVENT("proposal", {{"dvNormalized", verif::arr(best_dvNorm)}, {"dv", verif::arr(best_dv)}});
+#ifdef RODEO_VERIF
+	RODEO_VERIF_EVENT("samples", {{"function", verif::num(-1)}, {"data", verif::rows(objFun.getTrainingData())}});
+	for (const auto& constraint : constraintFunctions) {
+		if (!constraint.isUserDefinedFunction()) {
+			RODEO_VERIF_EVENT("samples", {{"function", verif::num(constraint.getID())}, {"data", verif::rows(constraint.getTrainingData())}});
+		}
+	}
+#endif
 }
 
 void Optimizer::initializeCurrentBestDesign(void) {
diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 72ee7f1..6e28a1a 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -9,6 +9,7 @@
 #include "./INCLUDE/kriging_training.hpp"
 #include "./INCLUDE/linear_regression.hpp"
 #include "./INCLUDE/model_logger.hpp"
+#include "../INCLUDE/verif_hooks.hpp"
 
 
 #ifdef OPENMP_SUPPORT
@@ -768,6 +769,8 @@ void KrigingModel::train() {
 			{
 				double bestSolutionLikelihood = threadBestSolution.getObjectiveFunctionValue();
 				ModelLogger::getInstance().log(INFO, "Best likelihood at local thread = " + std::to_string(bestSolutionLikelihood));
+				RODEO_VERIF_EVENT("thread_trained", {{"thread", verif::num(thread)}, {"value", verif::num(bestSolutionLikelihood)},
+					{"parameters", verif::arr(optimizedHyperParameters)}});
 				if (bestSolutionLikelihood < globalBestError) {
 					bestSolution = optimizedHyperParameters;
 					globalBestError = bestSolutionLikelihood;
@@ -821,6 +824,8 @@ void KrigingModel::train() {
 	ModelLogger::getInstance().log(INFO, "Model training is done.");
 
 	ifModelTrainingIsDone = true;
+	RODEO_VERIF_EVENT("model_trained", {{"samples", verif::num(numberOfSamples)}, {"threads", verif::num(numberOfThreads)},
+		{"parameters", verif::arr(correlationFunction.getHyperParameters())}});
 }
 
 
-- 
2.43.0


From 07b0cec23bcfc635047c72457d56c553d7fa7aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 02/59] fix: compare and replace the best candidate of the
 inner search in one critical section

---
 src/Optimizers/optimization.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index e41f147..3e8e8a0 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -698,18 +698,19 @@ void Optimizer::searchAroundGlobalOptima(DesignForBayesianOptimization &designWi
 			addPenaltyToAcqusitionFunctionForConstraints(designToBeTried);
 			RODEO_VERIF_EVENT("candidate", {{"phase", verif::num(2)}, {"value", verif::num(designToBeTried.valueAcquisitionFunction)},
 				{"dv", verif::arr(designToBeTried.dv)}});
-			if (designToBeTried.valueAcquisitionFunction
-					> designWithMaxAcqusition.valueAcquisitionFunction) {
+			/* the comparison must be protected together with the assignment */
 #ifdef OPENMP_SUPPORT
 #pragma omp critical
 #endif
-				{
+			{
+				if (designToBeTried.valueAcquisitionFunction
+						> designWithMaxAcqusition.valueAcquisitionFunction) {
 					designWithMaxAcqusition = designToBeTried;
-				}
 #if 0
-				printf("A design with a better EI value has been found (second loop) \n");
-				designToBeTried.print();
+					printf("A design with a better EI value has been found (second loop) \n");
+					designToBeTried.print();
 #endif
+				}
 			}
 		}
 	}
@@ -740,12 +741,13 @@ void Optimizer::searchCompleteDesignSpace(DesignForBayesianOptimization &designW
 		addPenaltyToAcqusitionFunctionForConstraints(designToBeTried);
 		RODEO_VERIF_EVENT("candidate", {{"phase", verif::num(1)}, {"value", verif::num(designToBeTried.valueAcquisitionFunction)},
 			{"dv", verif::arr(designToBeTried.dv)}});
-		if (designToBeTried.valueAcquisitionFunction
-				> designWithMaxAcqusition.valueAcquisitionFunction) {
+		/* the comparison must be protected together with the assignment */
 #ifdef OPENMP_SUPPORT
 #pragma omp critical
 #endif
-			{
+		{
+			if (designToBeTried.valueAcquisitionFunction
+					> designWithMaxAcqusition.valueAcquisitionFunction) {
 				designWithMaxAcqusition = designToBeTried;
 			}
 		}
-- 
2.43.0


From 26cbd7e412ec46ff641277944adc81059863a34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 03/59] fix: trust region length is relative to the design
 space for every dimension

---
 src/Optimizers/optimization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index 3e8e8a0..e3e71de 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -63,7 +63,7 @@ void Optimizer::initializeOptimizerSettings(void) {
 	iterGradientEILoop = 100;
 	improvementPercentThresholdForGradientStep = 5;
 
-	trLengthMax = 1.0/dimension;
+	trLengthMax = 1.0;
 	trLengthMin = pow(0.5,8)*trLengthMax;
 }
 
-- 
2.43.0


From dbcadbc622c5876029204ea38f03b561a4e4c024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 04/59] fix: retrain surrogates in every iteration when the
 training period is one

---
 src/Optimizers/efficient_global_optimization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimizers/efficient_global_optimization.cpp b/src/Optimizers/efficient_global_optimization.cpp
index 2bcc678..53e0e5d 100644
--- a/src/Optimizers/efficient_global_optimization.cpp
+++ b/src/Optimizers/efficient_global_optimization.cpp
@@ -17,7 +17,7 @@ void Optimizer::performEfficientGlobalOptimizationOnlyWithFunctionalValues(void)
 		RODEO_VERIF_EVENT("iteration", {{"iter", verif::num(outerIterationNumber)}});
 
 
-		if(outerIterationNumber%howOftenTrainModels == 1) {
+		if((outerIterationNumber - 1)%howOftenTrainModels == 0) {
 			initializeSurrogates();
 			trainSurrogates();
 			RODEO_VERIF_EVENT("trained", {{"iter", verif::num(outerIterationNumber)}});
-- 
2.43.0


From bca977606bde7dff4e705fc67a6cc10143c8d0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 05/59] fix: exploration factor must not become NaN when the
 crowding factor is zero

---
 src/Optimizers/optimization.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index e3e71de..bdebf34 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -1302,7 +1302,12 @@ void Optimizer::adjustSigmaFactor(void) {
 	history.calculateCrowdingFactor();
 	double cFactor = history.getCrowdingFactor();
 	//	output.printMessage("cFactor", cFactor);
-	sigmaFactor = sigmaMultiplier*(crowdingCoefficient / cFactor);
+	sigmaFactor = sigmaMultiplier;
+
+	/* the crowding factor vanishes if there is only one sample or if all samples coincide */
+	if(cFactor > 0.0){
+		sigmaFactor = sigmaMultiplier*(crowdingCoefficient / cFactor);
+	}
 	//	output.printMessage("sigmaFactor (calculated)", sigmaFactor);
 
 	int randomNumber = getRandomInteger(0,100);
-- 
2.43.0


From 3374918d5da07e657f5dacb0607d2c7419a7fdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 06/59] fix: fitness of a population is well defined for every
 spread of objective values

---
 .../INCLUDE/ea_population.hpp                 |   3 +-
 src/InternalOptimizers/ea_population.cpp      | 106 +++---------------
 2 files changed, 18 insertions(+), 91 deletions(-)

diff --git a/src/InternalOptimizers/INCLUDE/ea_population.hpp b/src/InternalOptimizers/INCLUDE/ea_population.hpp
index 4a15939..3abc8c3 100644
--- a/src/InternalOptimizers/INCLUDE/ea_population.hpp
+++ b/src/InternalOptimizers/INCLUDE/ea_population.hpp
@@ -27,12 +27,11 @@ private:
 	void updateMinAndMaxIfNecessary(double J, unsigned int id);
 	std::string polynomialForFitnessDistrubution = "quadratic";
 
-	vec findPolynomialCoefficientsForQuadraticFitnessDistribution(void) const;
+	double calculateQuadraticFitness(double J) const;
 
 	void updateFitnessValuesLinear();
 	void updateFitnessValuesQuadratic();
 
-	void checkIfAllObjectiveFunctionValuesAreZero() const;
 	void checkIfAllFitnessValuesAreZero() const;
 
 
diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index 36e8487..bde9854 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -361,21 +361,6 @@ void EAPopulation::updatePopulationMinAndMax(void){
 }
 
 
-void EAPopulation::checkIfAllObjectiveFunctionValuesAreZero() const{
-
-	bool allZero = std::all_of(std::begin(population), std::end(population),
-			[](const EAIndividual& individual) {
-		return fabs(individual.getObjectiveFunctionValue()) < 1e-14;
-	});
-
-	if (allZero) {
-		throw std::runtime_error("All objective function values are zero. Cannot update fitness values.");
-	}
-
-
-}
-
-
 void EAPopulation::checkIfAllFitnessValuesAreZero() const{
 
 	bool allZero = std::all_of(std::begin(population), std::end(population),
@@ -393,8 +378,6 @@ void EAPopulation::checkIfAllFitnessValuesAreZero() const{
 
 void EAPopulation::updateFitnessValuesLinear() {
 
-	checkIfAllObjectiveFunctionValuesAreZero();
-
 	for (auto it = std::begin(population); it != std::end(population); ++it) {
 		double fitnessValue = (populationMaximum
 				- it->getObjectiveFunctionValue())
@@ -405,22 +388,8 @@ void EAPopulation::updateFitnessValuesLinear() {
 
 void EAPopulation::updateFitnessValuesQuadratic() {
 
-	checkIfAllObjectiveFunctionValuesAreZero();
-
-	vec coefficients =
-			findPolynomialCoefficientsForQuadraticFitnessDistribution();
 	for (auto it = std::begin(population); it != std::end(population); ++it) {
-		double x = it->getObjectiveFunctionValue();
-		double fitnessValue = coefficients(0) * x * x + coefficients(1) * x
-				+ coefficients(2);
-		if(fitnessValue <= 0.0){
-			print();
-			std::cerr<< "WARNING: fitness value = " << fitnessValue << "\n";
-			throw std::runtime_error("EAPopulation::updateFitnessValuesQuadratic: invalid fitness value");
-		}
-
-
-		it->setFitnessValue(fitnessValue);
+		it->setFitnessValue(calculateQuadraticFitness(it->getObjectiveFunctionValue()));
 	}
 }
 
@@ -447,66 +416,25 @@ void EAPopulation::updateFitnessValues(void){
 
 /* Here we assume a quadratic function between fitness and objective function values.
  *
- *
- * fitness(J) = a*x*x + b*x + c
- *
- * J(populationMaximum)  = aValueCloseButNotEqualToZero
- * J(populationMinimum)  = 1.0
+ * fitness(populationMinimum)    = 1.0 (best fitness)
+ * fitness(populationMaximum)    = aValueCloseButNotEqualToZero (worst fitness)
+ * d(fitness) / dJ               = 0 at populationMaximum
  *
  */
 
-vec EAPopulation::findPolynomialCoefficientsForQuadraticFitnessDistribution() const {
-	vec coefficients(3);
-	mat A(3,3);
-	double aValueCloseButNotEqualToZero = 0.01;
-
-	/*
-	 * fitness = a*x*x + b*x + c
-	 *
-	 * fitness(min) = 1 (best fitness)
-	 * fitness(max) = 0.001 (worst fitness)
-	 * dfitness/dx = 2*a*x + b  = 0
-	 *
-	 * a * populationMinimum * populationMinimum + b*populationMinimum + c = 1
-	 * a * populationMaximum * populationMaximum + b*populationMaximum + c = aValueCloseButNotEqualToZero
-	 *
-	 * derivative at populationMaximum = 0
-	 *
-	 *
-	 * */
-
-//	std::cout<<"populationMinimum = " << populationMinimum << "\n";
-//	std::cout<<"populationMaximum = " << populationMaximum << "\n";
-
-	A(0,0) = populationMinimum * populationMinimum;
-	A(0,1) = populationMinimum;
-	A(0,2) = 1.0;
-
-	A(1,0) = populationMaximum * populationMaximum;
-	A(1,1) = populationMaximum;
-	A(1,2) = 1.0;
-
-	A(2,0) = 2.0 * populationMaximum;
-	A(2,1) = 1.0;
-	A(2,2) = 0.0;
-
-	vec rhs(3);
-	rhs(0) = 1.0;
-	rhs(1) = aValueCloseButNotEqualToZero;
-	rhs(2) = 0.0;
-
-	mat A_inv = A.invert();
-	coefficients = A_inv.matVecProduct(rhs);
-
-//	double f1 = coefficients(0)*populationMinimum * populationMinimum + coefficients(1) * populationMinimum + coefficients(2);
-//	double f2 = coefficients(0)*populationMaximum * populationMaximum + coefficients(1) * populationMaximum + coefficients(2);
-//	double f3 = 2*coefficients(0)*populationMaximum + coefficients(1);
-//
-//	std::cout<<"f1 = " << f1 << "\n";
-//	std::cout<<"f2 = " << f2 << "\n";
-//	std::cout<<"f3 = " << f3 << "\n";
-
-	return coefficients;
+double EAPopulation::calculateQuadraticFitness(double J) const {
+
+	const double aValueCloseButNotEqualToZero = 0.01;
+	double range = populationMaximum - populationMinimum;
+
+	/* all individuals are equally good */
+	if(!(range > 0.0)){
+		return 1.0;
+	}
+
+	double distanceToWorst = (populationMaximum - J)/range;
+
+	return aValueCloseButNotEqualToZero + (1.0 - aValueCloseButNotEqualToZero)*distanceToWorst*distanceToWorst;
 }
 
 
-- 
2.43.0


From 63324e0e9dde07b1c980fe67c61a11696a155210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 07/59] fix: selection of individuals must not fail when the
 probabilities sum up to slightly less than one

---
 src/InternalOptimizers/ea_population.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index bde9854..622f1ea 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -529,6 +529,13 @@ EAIndividual EAPopulation::pickUpARandomIndividualForReproduction(void) const {
 		}
 	}
 
+	// The sum of the probabilities can be slightly less than one due to rounding
+	for (auto it = population.rbegin(); it != population.rend(); ++it) {
+		if (it->getReproductionProbability() > 0.0) {
+			return *it;
+		}
+	}
+
 	// This point should not be reached if the logic is correct
 	throw std::runtime_error("Failed to pick a random individual for reproduction.");
 }
@@ -568,6 +575,12 @@ EAIndividual EAPopulation::pickUpAnIndividualThatWillDie(void) const {
 		}
 	}
 
+	// The sum of the probabilities can be slightly less than one due to rounding
+	for (auto it = population.rbegin(); it != population.rend(); ++it) {
+		if (it->getDeathProbability() > 0.0) {
+			return *it;
+		}
+	}
 
 	throw std::runtime_error("Failed to pick a valid individual that will die.");
 
-- 
2.43.0


From d2e253d93146512032c62c40edeb2010b16cd9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 08/59] fix: the best individual of a population must never be
 removed

---
 src/InternalOptimizers/ea_population.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index 622f1ea..e684fc5 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -479,7 +479,8 @@ void EAPopulation::updateDeathProbabilities(void){
 
 	for(i=0; i<getSize(); i++) {
 
-		if(fitnessValues(i) > best10PercentThreshold){
+		/* the best individual never dies */
+		if(fitnessValues(i) > best10PercentThreshold || population[i].getId() == idPopulationMinimum){
 			oneOverFitness(i) = 0.0;
 		}
 		else{
@@ -491,7 +492,11 @@ void EAPopulation::updateDeathProbabilities(void){
 
 	i=0;
 	for(auto it = std::begin(population); it != std::end(population); ++it) {
-		double deathProbability = oneOverFitness(i)/sumoneOverFitness;
+		double deathProbability = 0.0;
+
+		if(sumoneOverFitness > 0.0){
+			deathProbability = oneOverFitness(i)/sumoneOverFitness;
+		}
 		//		std::cout<<"deathProbability = " << deathProbability << "\n";
 		it->setDeathProbabilityValue(deathProbability );
 		i++;
-- 
2.43.0


From 541916fc9ff64a870f4f925290151364adb131cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 09/59] fix: a child must not get the id of an existing
 individual

---
 src/InternalOptimizers/ea_optimizer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/InternalOptimizers/ea_optimizer.cpp b/src/InternalOptimizers/ea_optimizer.cpp
index a0ddf54..0f197f5 100644
--- a/src/InternalOptimizers/ea_optimizer.cpp
+++ b/src/InternalOptimizers/ea_optimizer.cpp
@@ -292,8 +292,7 @@ EAIndividual  EAOptimizer::generateIndividualByReproduction(std::pair<EAIndividu
 	vec newGenes =  crossOver(parents);
 
 	child.setGenes(newGenes);
-	child.setId(totalNumberOfGeneratedIndividuals);
-	++totalNumberOfGeneratedIndividuals;
+	child.setId(++totalNumberOfGeneratedIndividuals);
 	return child;
 
 }
-- 
2.43.0


From f8ed6bdd753cf331fc2ab0896103f1d79f932725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 10/59] fix: individuals generated after a warm restart get
 unique ids

---
 src/InternalOptimizers/INCLUDE/ea_optimizer.hpp  | 1 +
 src/InternalOptimizers/INCLUDE/ea_population.hpp | 1 +
 src/InternalOptimizers/ea_optimizer.cpp          | 9 ++++++---
 src/InternalOptimizers/ea_population.cpp         | 9 +++++++++
 4 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/InternalOptimizers/INCLUDE/ea_optimizer.hpp b/src/InternalOptimizers/INCLUDE/ea_optimizer.hpp
index a793aef..e753024 100644
--- a/src/InternalOptimizers/INCLUDE/ea_optimizer.hpp
+++ b/src/InternalOptimizers/INCLUDE/ea_optimizer.hpp
@@ -38,6 +38,7 @@ private:
 	unsigned int sizeOfInitialPopulation = 0;
 
 	unsigned int totalNumberOfGeneratedIndividuals = 0;
+	unsigned int lastIdUsed = 0;
 	unsigned int totalNumberOfCrossOvers = 0;
 
 
diff --git a/src/InternalOptimizers/INCLUDE/ea_population.hpp b/src/InternalOptimizers/INCLUDE/ea_population.hpp
index 3abc8c3..062da9e 100644
--- a/src/InternalOptimizers/INCLUDE/ea_population.hpp
+++ b/src/InternalOptimizers/INCLUDE/ea_population.hpp
@@ -64,6 +64,7 @@ public:
 
 	int getIndividualOrderInPopulationById(unsigned int id) const;
 	unsigned int  getIndividualIdInPopulationByOrder(unsigned int order) const;
+	unsigned int getLargestId(void) const;
 
 	void print(void) const;
 
diff --git a/src/InternalOptimizers/ea_optimizer.cpp b/src/InternalOptimizers/ea_optimizer.cpp
index 0f197f5..34d8e33 100644
--- a/src/InternalOptimizers/ea_optimizer.cpp
+++ b/src/InternalOptimizers/ea_optimizer.cpp
@@ -105,8 +105,8 @@ EAIndividual  EAOptimizer::generateRandomIndividual(void){
 
 	//	output.printMessage("x", randomGenes);
 	newIndividual.initializeGenes(randomGenes);
-	unsigned int id = ++totalNumberOfGeneratedIndividuals;
-	newIndividual.setId(id);
+	++totalNumberOfGeneratedIndividuals;
+	newIndividual.setId(++lastIdUsed);
 
 
 	callObjectiveFunction(newIndividual);
@@ -292,7 +292,8 @@ EAIndividual  EAOptimizer::generateIndividualByReproduction(std::pair<EAIndividu
 	vec newGenes =  crossOver(parents);
 
 	child.setGenes(newGenes);
-	child.setId(++totalNumberOfGeneratedIndividuals);
+	++totalNumberOfGeneratedIndividuals;
+	child.setId(++lastIdUsed);
 	return child;
 
 }
@@ -439,6 +440,7 @@ void EAOptimizer::setWarmStartOff(void){
 void EAOptimizer::optimize(void){
 
 	totalNumberOfGeneratedIndividuals = 0;
+	lastIdUsed = 0;
 	//	output.printMessage("EA Optimizer: start...");
 	checkIfSettingsAreOk();
 
@@ -549,6 +551,7 @@ void EAOptimizer::readWarmRestartFile() {
 
 	try {
 		population.readFromCSV(filenameWarmStart);
+		lastIdUsed = std::max(lastIdUsed, population.getLargestId());
 		ifPopulationIsInitialized = true;  // Set the flag after successful read
 	} catch (const std::exception& e) {
 		// Handle exceptions from readFromCSV
diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index e684fc5..e9322eb 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -132,6 +132,15 @@ unsigned int  EAPopulation::getIndividualIdInPopulationByOrder(unsigned int orde
 
 }
 
+unsigned int EAPopulation::getLargestId(void) const{
+
+	unsigned int largestId = 0;
+	for (const auto& individual : population) {
+		largestId = std::max(largestId, individual.getId());
+	}
+	return largestId;
+}
+
 void EAPopulation::print(void) const {
 	// Save the current format of std::cout
 	std::ios oldState(nullptr);
-- 
2.43.0


From e94774c6aaddc3725137d3ade2657687956fa86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 11/59] fix: minimum and maximum of a population are those of
 its current individuals

---
 src/InternalOptimizers/INCLUDE/ea_population.hpp | 4 ++--
 src/InternalOptimizers/ea_population.cpp         | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/InternalOptimizers/INCLUDE/ea_population.hpp b/src/InternalOptimizers/INCLUDE/ea_population.hpp
index 062da9e..3e385db 100644
--- a/src/InternalOptimizers/INCLUDE/ea_population.hpp
+++ b/src/InternalOptimizers/INCLUDE/ea_population.hpp
@@ -18,8 +18,8 @@ private:
 
 	std::vector<EAIndividual> population;
 
-	double populationMinimum = std::numeric_limits<double>::max();
-	double populationMaximum = std::numeric_limits<double>::min();
+	double populationMinimum =  std::numeric_limits<double>::infinity();
+	double populationMaximum = -std::numeric_limits<double>::infinity();
 	unsigned int idPopulationMinimum = 0;
 	unsigned int idPopulationMaximum = 0;
 	unsigned int dimension = 0;
diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index e9322eb..3995659 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -183,6 +183,7 @@ void EAPopulation::print(void) const {
 void EAPopulation::reset(void){
 
 	population.clear();
+	updatePopulationMinAndMax();
 
 }
 
@@ -258,7 +259,7 @@ void EAPopulation::readFromCSV(const std::string& filename) {
 		throw std::runtime_error("Cannot open file: " + filename);
 	}
 
-	population.clear();  // Clear any existing data
+	reset();  // Clear any existing data
 
 	std::string line;
 
@@ -356,8 +357,8 @@ void EAPopulation::updateMinAndMaxIfNecessary(double J, unsigned int id) {
 
 void EAPopulation::updatePopulationMinAndMax(void){
 
-	populationMaximum =  std::numeric_limits<double>::min();;
-	populationMinimum =  std::numeric_limits<double>::max();;
+	populationMaximum = -std::numeric_limits<double>::infinity();
+	populationMinimum =  std::numeric_limits<double>::infinity();
 	for(auto it = std::begin(population); it != std::end(population); ++it) {
 
 
-- 
2.43.0


From 8239bff289bf204736c5662c016b92b93d2b1e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 12/59] fix: populations of different threads must not share a
 random number generator

---
 src/InternalOptimizers/INCLUDE/ea_population.hpp | 2 +-
 src/InternalOptimizers/ea_population.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/InternalOptimizers/INCLUDE/ea_population.hpp b/src/InternalOptimizers/INCLUDE/ea_population.hpp
index 3e385db..7619a5e 100644
--- a/src/InternalOptimizers/INCLUDE/ea_population.hpp
+++ b/src/InternalOptimizers/INCLUDE/ea_population.hpp
@@ -14,7 +14,7 @@ class EAPopulation{
 
 private:
 
-	static std::mt19937 gen;
+	static thread_local std::mt19937 gen;
 
 	std::vector<EAIndividual> population;
 
diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index 3995659..4c40578 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -13,7 +13,7 @@
 using namespace std;
 namespace Rodop{
 
-std::mt19937 EAPopulation::gen(std::chrono::system_clock::now().time_since_epoch().count());
+thread_local std::mt19937 EAPopulation::gen(std::chrono::system_clock::now().time_since_epoch().count());
 
 void EAPopulation::setDimension(unsigned int value){
 
-- 
2.43.0


From e302ccfbdb5ce0dcc62a873cdec02a67a5f0e18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 13/59] fix: hyperparameters without a factorizable correlation
 matrix must never win the training

---
 src/SurrogateModels/kriging_training.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 6e28a1a..485bda9 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -639,7 +639,7 @@ double KrigingModel::calculateValidationErrorForGivenHyperparameters(vec hyperPa
 
 	// Check if the factorization of the correlation matrix was successful
 	if (!linearSystemCorrelationMatrix.isFactorizationDone()) {
-		return std::numeric_limits<double>::lowest(); // Return a large negative value if factorization fails
+		return std::numeric_limits<double>::max(); // The validation error is minimized: return a large positive value if factorization fails
 	}
 
 	return calculateValidationError();
-- 
2.43.0


From be36ad95348fbfe59bd8c448ebadf547ef1c2bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 14/59] fix: training returns hyperparameters even if no
 candidate has a finite likelihood

---
 src/SurrogateModels/kriging_training.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 485bda9..5ea0084 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -717,7 +717,7 @@ void KrigingModel::train() {
 			lb(i) = 1.0;
 		}
 
-		double globalBestError = std::numeric_limits<double>::max();
+		double globalBestError = std::numeric_limits<double>::infinity();
 
 		unsigned int problemDimForInternalOptimization = 2*dimension;
 		unsigned int numberOfNewIndividualInGeneration = 200*dimension;
-- 
2.43.0


From 4380ce004fee6b0579a9042b317cc9ae0634575c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 15/59] fix: number of training iterations must not shrink with
 every training

---
 src/SurrogateModels/kriging_training.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 5ea0084..c98d5ae 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -735,8 +735,8 @@ void KrigingModel::train() {
 		ModelLogger::getInstance().log(INFO, "Number of generations = " + std::to_string(numberOfGenerations));
 		ModelLogger::getInstance().log(INFO, "Number of threads = " + std::to_string(numberOfThreads));
 
-		numberOfTrainingIterations = numberOfTrainingIterations / numberOfThreads;
-		ModelLogger::getInstance().log(INFO, "Number of iterations per thread: " + std::to_string(numberOfTrainingIterations));
+		unsigned int numberOfTrainingIterationsPerThread = std::max(numberOfTrainingIterations / numberOfThreads, 1u);
+		ModelLogger::getInstance().log(INFO, "Number of iterations per thread: " + std::to_string(numberOfTrainingIterationsPerThread));
 		vec bestSolution;
 #ifdef OPENMP_SUPPORT
 		omp_set_num_threads(numberOfThreads);
@@ -753,7 +753,7 @@ void KrigingModel::train() {
 
 			parameterOptimizer.setInitialPopulationSize(initialPopulationSize);
 			parameterOptimizer.setMutationProbability(0.1);
-			parameterOptimizer.setMaximumNumberOfGeneratedIndividuals(numberOfTrainingIterations);
+			parameterOptimizer.setMaximumNumberOfGeneratedIndividuals(numberOfTrainingIterationsPerThread);
 
 
 			parameterOptimizer.setNumberOfGenerations(numberOfGenerations);
-- 
2.43.0


From 41e9c1ec5b9222ff9483554f3a70978a4c569747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 16/59] fix: an output file left from a previous evaluation
 must not be read again

---
 src/ObjectiveFunctions/objective_function.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ObjectiveFunctions/objective_function.cpp b/src/ObjectiveFunctions/objective_function.cpp
index 9f585ee..aea5822 100644
--- a/src/ObjectiveFunctions/objective_function.cpp
+++ b/src/ObjectiveFunctions/objective_function.cpp
@@ -29,6 +29,7 @@
  *
  */
 #include <stdio.h>
+#include <cstdio>
 #include <math.h>
 #include <string>
 #include <stdlib.h>
@@ -831,6 +832,11 @@ void ObjectiveFunction::evaluateObjectiveFunction() const {
 	}
 
 	if (!runCommand.empty()) {
+		// An output file of a previous evaluation must not be taken as the result of this one
+		if (!definition.outputFilename.empty()) {
+			std::remove(definition.outputFilename.c_str());
+		}
+
 		try {
 			// Execute the command and wait for completion
 			child c(runCommand);
-- 
2.43.0


From 0ed49fbd1ce6c0839035f02d4643cb3f933dd0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 17/59] fix: write the design vector with full precision

---
 src/ObjectiveFunctions/objective_function.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ObjectiveFunctions/objective_function.cpp b/src/ObjectiveFunctions/objective_function.cpp
index aea5822..3ab3d0c 100644
--- a/src/ObjectiveFunctions/objective_function.cpp
+++ b/src/ObjectiveFunctions/objective_function.cpp
@@ -30,6 +30,8 @@
  */
 #include <stdio.h>
 #include <cstdio>
+#include <iomanip>
+#include <limits>
 #include <math.h>
 #include <string>
 #include <stdlib.h>
@@ -706,6 +708,9 @@ void ObjectiveFunction::writeDesignVariablesToFile(Design &d) const{
 		abort();
 	}
 
+	// the executable must get exactly the parameters of the design
+	outputFileStream << std::setprecision(std::numeric_limits<double>::max_digits10);
+
 	for(unsigned int i=0; i<dim; i++) {
 
 		outputFileStream << d.designParameters(i) << std::endl;
-- 
2.43.0


From e5872a345375529ed1d5fd0291001799a0c7a7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 18/59] fix: rounding errors must not move a design out of the
 box constraints

---
 src/LinearAlgebra/vector.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LinearAlgebra/vector.cpp b/src/LinearAlgebra/vector.cpp
index b2818f0..0c6ff15 100644
--- a/src/LinearAlgebra/vector.cpp
+++ b/src/LinearAlgebra/vector.cpp
@@ -846,6 +846,10 @@ vec vec::denormalizeVector(const vec &xmin, const vec &xmax) const {
 
 	for(unsigned int i = 0; i < size; i++) {
 		original(i) = (data[i] * size) * (xmax(i) - xmin(i)) + xmin(i);
+
+		/* rounding must not push a value that is within the normalized bounds out of the bounds */
+		if(data[i] >= 0.0 && original(i) < xmin(i)) original(i) = xmin(i);
+		if(data[i] <= 1.0/size && original(i) > xmax(i)) original(i) = xmax(i);
 	}
 
 	return original;
-- 
2.43.0


From 7816a74f998e29481ebac48d50580118baec8527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 19/59] fix: the last admissible value of a discrete parameter
 must be reachable

---
 src/Optimizers/optimization.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index bdebf34..3e00a5b 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -1392,11 +1392,13 @@ int Optimizer::findClosestDiscreteValue(double value, const vec& discreteValues)
 }
 
 vec Optimizer::generateDiscreteValues(unsigned int index, double dx) const {
-	unsigned int numDiscreteValues = static_cast<unsigned int>((upperBounds(index) - lowerBounds(index)) / dx) + 1;
+	/* the tolerance ensures that rounding errors in the division do not drop the last value */
+	const double tolerance = 1e-8;
+	unsigned int numDiscreteValues = static_cast<unsigned int>((upperBounds(index) - lowerBounds(index)) / dx + tolerance) + 1;
 	vec discreteValues(numDiscreteValues);
 
 	for (unsigned int k = 0; k < numDiscreteValues; ++k) {
-		discreteValues(k) = lowerBounds(index) + k * dx;
+		discreteValues(k) = std::min(lowerBounds(index) + k * dx, upperBounds(index));
 	}
 
 	return discreteValues;
-- 
2.43.0


From 7b57d24f71a7562917071656ec86d02a88c3a8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 20/59] fix: number of training iterations of a constraint is
 read from its own block

---
 src/Driver/driver_xml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 3e9eb5b..b51d1eb 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -318,7 +318,7 @@ void Driver::setConstraintUDF(ConstraintFunction &constraint) {
 void Driver::setConstraintNumberOfTrainingIterations(ConstraintFunction &constraint) {
 
 	int numberOfTrainingIterations = getConfigKeyValueInt(
-			keywordsObjectiveFunction, "number_of_training_iterations");
+			keywordsConstraintFunction, "number_of_training_iterations");
 
 	if(numberOfTrainingIterations != -10000000){
 
-- 
2.43.0


From f9efa0be50e3354ace48d8c68b643b41f808345a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 21/59] fix: use the name of the study given in the
 configuration file

---
 src/Driver/driver_xml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index b51d1eb..7d78559 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -614,7 +614,7 @@ void Driver::setNumberOfThreadsOptimizationStudy(void) {
 
 void Driver::setNameOptimizationStudy() {
 	string name = getConfigKeyValueString(keywordsGeneral, "name");
-	if (name.empty()) {
+	if (!name.empty()) {
 		optimizationStudy.setName(name);
 	} else {
 		optimizationStudy.setName("OptimizationStudy");
-- 
2.43.0


From 67ea33e3364d03bce68be5eea4d2ba91c285e00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 22/59] fix: a parameter without bounds or increment is
 rejected

---
 src/Driver/driver_xml.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 7d78559..714a45e 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -506,6 +506,18 @@ void Driver::readOptimizationParameters() {
 		// Log the parameter being processed
 		DriverLogger::getInstance().log(INFO, "Processing parameter: " + name + " of type: " + type);
 
+		// Bounds are mandatory for each parameter, increment is mandatory only for a discrete parameter
+		std::vector<std::string> mandatoryKeywords = {"lower_bound", "upper_bound"};
+		if (type == "discrete" || type == "int") {
+			mandatoryKeywords.push_back("increment");
+		}
+		for (const auto &keyword : mandatoryKeywords) {
+			if (getStringValueFromXML(param, keyword).empty()) {
+				DriverLogger::getInstance().log(ERROR, "'" + keyword + "' is missing for parameter: " + name);
+				throw std::runtime_error("Driver::readOptimizationParameters: '" + keyword + "' is missing for parameter: " + name);
+			}
+		}
+
 		double lb = getDoubleValueFromXML(param, "lower_bound");
 		double ub = getDoubleValueFromXML(param, "upper_bound");
 
-- 
2.43.0


From 8cd0197ed70f653a104cf9ea9d0ca792d1e7dfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 23/59] fix: an unterminated constraint block is rejected and
 its layout does not matter

---
 src/Driver/driver_xml.cpp | 43 ++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 714a45e..98dd6b0 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -1049,43 +1049,36 @@ std::string Driver::readASegmentFromXMLFile(string keyword) const {
 
 
 std::vector<std::string> Driver::readConstraintFunctionsFromXML(void) const {
-	std::vector<std::string> constraintFunctions;
 	std::ifstream file(configFilename);
-	std::string line;
-	bool insideConstraintFunction = false;
-	std::string currentConstraintFunction;
 
 	// Check if the file was opened successfully
 	if (!file.is_open()) {
-		std::cerr << "Error opening file: " << configFilename << std::endl;
-		return constraintFunctions;
+		throw std::runtime_error("Failed to open file: " + configFilename);
 	}
 
-	// Read the file line by line
-	while (std::getline(file, line)) {
-		// Trim leading and trailing whitespaces from the line (if needed)
-		line.erase(0, line.find_first_not_of(" \t"));  // Left trim
-		line.erase(line.find_last_not_of(" \t") + 1);  // Right trim
+	std::stringstream buffer;
+	buffer << file.rdbuf();
+	const std::string filetext = buffer.str();
 
-		// Start of a constraint function
-		if (line.find("<constraint_function>") != std::string::npos) {
-			insideConstraintFunction = true;
-			currentConstraintFunction.clear();
-		}
+	const std::string startTag = "<constraint_function>";
+	const std::string endTag = "</constraint_function>";
 
-		// End of a constraint function
-		if (line.find("</constraint_function>") != std::string::npos) {
-			insideConstraintFunction = false;
-			constraintFunctions.push_back(currentConstraintFunction);
-		}
+	std::vector<std::string> constraintFunctions;
+	size_t startPos = filetext.find(startTag);
 
-		// Collect lines inside the constraint function block
-		if (insideConstraintFunction) {
-			currentConstraintFunction += line + "\n";  // Preserve line breaks
+	while (startPos != std::string::npos) {
+		const size_t contentPos = startPos + startTag.length();
+		const size_t endPos = filetext.find(endTag, contentPos);
+		const size_t nextStartPos = filetext.find(startTag, contentPos);
+
+		if (endPos == std::string::npos || nextStartPos < endPos) {
+			throw std::runtime_error("End tag not found for the key: constraint_function");
 		}
+
+		constraintFunctions.push_back(filetext.substr(contentPos, endPos - contentPos));
+		startPos = nextStartPos;
 	}
 
-	file.close();  // Close the file when done
 	return constraintFunctions;
 }
 
-- 
2.43.0


From 6703573972b6e43246ba5a2405c32b9d476364e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 24/59] fix: non-positive numbers of iterations or threads are
 rejected

---
 src/Driver/driver_xml.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 98dd6b0..ab10894 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -214,6 +214,10 @@ void Driver::setObjectiveFunctionNumberOfTrainingIterations() {
 
 	if(numberOfTrainingIterations != NONEXISTINGINTKEYWORD){
 
+		if (numberOfTrainingIterations <= 0) {
+			throw std::invalid_argument(
+					"number of training iterations must be a positive integer. Check configuration file");
+		}
 		objectiveFunction.setNumberOfTrainingIterationsForSurrogateModel(
 				numberOfTrainingIterations);
 	}
@@ -322,6 +326,10 @@ void Driver::setConstraintNumberOfTrainingIterations(ConstraintFunction &constra
 
 	if(numberOfTrainingIterations != -10000000){
 
+		if (numberOfTrainingIterations <= 0) {
+			throw std::invalid_argument(
+					"number of training iterations must be a positive integer. Check configuration file");
+		}
 		constraint.setNumberOfTrainingIterationsForSurrogateModel(
 				numberOfTrainingIterations);
 
@@ -607,6 +615,10 @@ void Driver::setMaxNumberOfInnerIterationsOptimizationStudy(void) {
 	int maxiter = getConfigKeyValueInt(keywordsGeneral, "max_number_of_inner_iterations");
 
 	if(maxiter != -10000000){
+		if (maxiter <= 0) {
+			throw std::invalid_argument(
+					"max number of inner iterations must be a positive integer. Check configuration file");
+		}
 		optimizationStudy.setMaximumNumberOfInnerIterations(maxiter);
 	}
 
@@ -619,6 +631,10 @@ void Driver::setNumberOfThreadsOptimizationStudy(void) {
 
 	if(N != -10000000){
 
+		if (N <= 0) {
+			throw std::invalid_argument(
+					"number of threads must be a positive integer. Check configuration file");
+		}
 		optimizationStudy.setNumberOfThreads(N);
 	}
 
-- 
2.43.0


From ff863fd3b29952bbc1cf954d57fd6f935eccd5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 25/59] fix: surrogate model types without an implementation
 are rejected

---
 src/ObjectiveFunctions/objective_function.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ObjectiveFunctions/objective_function.cpp b/src/ObjectiveFunctions/objective_function.cpp
index 3ab3d0c..039e5fb 100644
--- a/src/ObjectiveFunctions/objective_function.cpp
+++ b/src/ObjectiveFunctions/objective_function.cpp
@@ -238,9 +238,12 @@ void ObjectiveFunction::bindSurrogateModelSingleFidelity() {
 	if (definition.modelHiFi == ORDINARY_KRIGING) {
 		bindWithOrdinaryKrigingModel();
 	}
-	if (definition.modelHiFi == UNIVERSAL_KRIGING) {
+	else if (definition.modelHiFi == UNIVERSAL_KRIGING) {
 		bindWithUniversalKrigingModel();
 	}
+	else {
+		throw std::invalid_argument("Surrogate model type is not supported.");
+	}
 
 }
 
-- 
2.43.0


From 87bc8e7fa585d3af19da883a7de4eb2bb27591af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 26/59] fix: a setting that is not a complete number is
 rejected

---
 src/Driver/driver_xml.cpp    |  7 ++++++-
 src/Driver/xml_functions.cpp | 16 ++++++++++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index ab10894..50af717 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -296,7 +296,12 @@ void Driver::setConstraintValue(ConstraintDefinition &constraintDefinition) {
 	}
 	double value = 0.0;
 	try {
-		value = std::stod(constraint_value); // Attempt to convert string to double
+		size_t numberOfCharacters = 0;
+		value = std::stod(constraint_value, &numberOfCharacters); // Attempt to convert string to double
+
+		if (numberOfCharacters != constraint_value.length()) {
+			throw std::invalid_argument("There are characters after the number.");
+		}
 
 	} catch (const std::invalid_argument& e) {
 		throw std::invalid_argument("Invalid argument. Unable to convert string to double. Check configuration file");
diff --git a/src/Driver/xml_functions.cpp b/src/Driver/xml_functions.cpp
index 2577bc8..1dd34b4 100644
--- a/src/Driver/xml_functions.cpp
+++ b/src/Driver/xml_functions.cpp
@@ -133,7 +133,12 @@ double getDoubleValueFromXML(const std::string& xmlString, const std::string& ke
 	double value;
 	try
 	{
-		value = std::stod(valueString);
+		size_t numberOfCharacters = 0;
+		value = std::stod(valueString, &numberOfCharacters);
+
+		if(numberOfCharacters != valueString.length()){
+			throw std::invalid_argument("There are characters after the number.");
+		}
 	}
 	catch (...)
 	{
@@ -206,12 +211,19 @@ int getIntegerValueFromXML(const std::string& xmlString, const std::string& keyw
 
 
 
+	valueString = removeSpacesFromString(valueString);
+
 	int value;
 
 
 	try
 	{
-		value = std::stoi(valueString);
+		size_t numberOfCharacters = 0;
+		value = std::stoi(valueString, &numberOfCharacters);
+
+		if(numberOfCharacters != valueString.length()){
+			throw std::invalid_argument("There are characters after the number.");
+		}
 	}
 	catch (...)
 	{
-- 
2.43.0


From f9cfb3d7483e49a587a1035e9cbc54069a5a4606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 27/59] fix: incomplete or ambiguous constraint definitions are
 rejected

---
 .../constraint_functions.cpp                  | 35 +++++++++++--------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/ObjectiveFunctions/constraint_functions.cpp b/src/ObjectiveFunctions/constraint_functions.cpp
index 52deb44..c996311 100644
--- a/src/ObjectiveFunctions/constraint_functions.cpp
+++ b/src/ObjectiveFunctions/constraint_functions.cpp
@@ -30,38 +30,45 @@ void ConstraintDefinition::setDefinition(const std::string& definition) {
         throw std::invalid_argument("Constraint definition is empty.");
     }
 
-    // Find the positions of '>' or '<' in the definition string
-    size_t found = definition.find(">");
-    size_t found2 = definition.find("<");
-    size_t place;
+    // Find the position of '>' or '<' in the definition string
+    size_t place = definition.find_first_of("<>");
     std::string nameBuf, typeBuf, valueBuf;
 
-    // Determine the inequality operator and position
-    if (found != std::string::npos) {
-        place = found;
-    } else if (found2 != std::string::npos) {
-        place = found2;
-    } else {
+    if (place == std::string::npos) {
         throw std::invalid_argument("Invalid constraint definition format. Must contain '>' or '<'.");
     }
+    if (definition.find_first_of("<>", place + 1) != std::string::npos) {
+        throw std::invalid_argument("Invalid constraint definition format. Must contain only one inequality.");
+    }
 
     // Extract the name, inequality type, and value from the definition string
     nameBuf.assign(definition, 0, place);
     nameBuf = removeSpacesFromString(nameBuf); // Remove spaces from the name
 
+    if (nameBuf.empty()) {
+        throw std::invalid_argument("Name is missing in constraint definition.");
+    }
+
     typeBuf.assign(definition, place, 1); // The inequality symbol (either '>' or '<')
 
-    valueBuf.assign(definition, place + 1, definition.length() - nameBuf.length() - typeBuf.length());
-    valueBuf = removeSpacesFromString(valueBuf); // Remove spaces from the value
+    valueBuf = definition.substr(place + 1);
+    const size_t endOfValue = valueBuf.find_last_not_of(" \t\n\r\f\v");
+    valueBuf.erase(endOfValue == std::string::npos ? 0 : endOfValue + 1); // Remove trailing spaces
 
     // Check if valueBuf can be converted to a valid double
+    double valueRead = 0.0;
+    size_t numberOfCharacters = 0;
     try {
-        value = std::stod(valueBuf);
-    } catch (const std::invalid_argument& e) {
+        valueRead = std::stod(valueBuf, &numberOfCharacters);
+    } catch (const std::exception& e) {
+        throw std::invalid_argument("Invalid numerical value in constraint definition.");
+    }
+    if (numberOfCharacters != valueBuf.length()) {
         throw std::invalid_argument("Invalid numerical value in constraint definition.");
     }
 
     // Set class members
+    value = valueRead;
     constraintName = nameBuf;
     inequalityType = typeBuf;
 }
-- 
2.43.0


From 33409b3e4f65a2795d575f57789e3e1c176a8bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 28/59] fix: API and configuration parse constraint definitions
 in the same way

---
 src/API/cppAPI.cpp | 35 ++++++-----------------------------
 1 file changed, 6 insertions(+), 29 deletions(-)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 06642be..1ee8c81 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -160,38 +160,15 @@ void RobustDesignOptimizer::setObjectiveFunction(ObjectiveFunctionPtr function,
 
 }
 
-// Helper function to trim whitespace from a string
-std::string trim(const std::string& str) {
-	size_t start = str.find_first_not_of(" \t\n\r");
-	size_t end = str.find_last_not_of(" \t\n\r");
-	return (start == std::string::npos || end == std::string::npos) ? "" : str.substr(start, end + 1);
-}
-
 ParsedConstraintExpression parseExpression(const std::string& input) {
-	// Trim the input to remove leading/trailing whitespace
-	std::string trimmedInput = trim(input);
-	std::istringstream stream(trimmedInput);
-	ParsedConstraintExpression result;
-
-	// Read the name part
-	if (!(stream >> result.name)) {
-		throw std::invalid_argument("Failed to parse the name part from expression: '" + input + "'");
-	}
 
-	// Read the inequality part
-	if (!(stream >> result.inequality)) {
-		throw std::invalid_argument("Failed to parse the inequality part from expression: '" + input + "'");
-	}
-
-	// Validate the inequality part
-	if (result.inequality != "<" && result.inequality != ">") {
-		throw std::invalid_argument("Invalid inequality operator in expression: '" + input + "'");
-	}
+	ConstraintDefinition definition;
+	definition.setDefinition(input);
 
-	// Read the floating point number part
-	if (!(stream >> result.value)) {
-		throw std::invalid_argument("Failed to parse the floating point number from expression: '" + input + "'");
-	}
+	ParsedConstraintExpression result;
+	result.name = definition.constraintName;
+	result.inequality = definition.inequalityType;
+	result.value = definition.value;
 
 	return result;
 }
-- 
2.43.0


From 18c1611e8863fef754fd9ba06cd851f0bcd5a79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 29/59] fix: box constraints given to the API again replace the
 previous ones

---
 src/API/cppAPI.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 1ee8c81..e649173 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -89,15 +89,15 @@ void RobustDesignOptimizer::setBoxConstraints(double *lb, double *ub){
 	}
 
 	for(unsigned int i=0;i<dimension; i++){
-		if(lb[i] >= ub[i]){
+		if(!(lb[i] < ub[i])){
 			throw std::invalid_argument("Box constraints are not set properly");
 
 		}
-
-		lowerBounds.push_back(lb[i]);
-		upperBounds.push_back(ub[i]);
 	}
 
+	lowerBounds.assign(lb, lb + dimension);
+	upperBounds.assign(ub, ub + dimension);
+
 	Bounds boxConstraints;
 	boxConstraints.setDimension(dimension);
 	boxConstraints.setBounds(lowerBounds,upperBounds);
-- 
2.43.0


From c689a17f97dbe177951768042f4728c798fffc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 30/59] fix: objective function given to the API again replaces
 the previous one

---
 src/API/cppAPI.cpp              | 12 ++++++++++++
 src/Optimizers/optimization.cpp |  2 --
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index e649173..08acf7c 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -87,6 +87,9 @@ void RobustDesignOptimizer::setBoxConstraints(double *lb, double *ub){
 	if(dimension == 0){
 		throw std::invalid_argument("Problem dimension is not specified");
 	}
+	if(!isObjectiveFunctionSpecified){
+		throw std::invalid_argument("Objective function must be specified before the box constraints");
+	}
 
 	for(unsigned int i=0;i<dimension; i++){
 		if(!(lb[i] < ub[i])){
@@ -140,6 +143,9 @@ void RobustDesignOptimizer::setObjectiveFunction(ObjectiveFunctionPtr function,
 		throw std::invalid_argument("Null function pointer");
 	}
 
+	if(!isDimensionSpecified){
+		throw std::invalid_argument("Problem dimension must be specified before the objective function");
+	}
 
 	objectiveFunctionPtr = function;
 
@@ -154,6 +160,12 @@ void RobustDesignOptimizer::setObjectiveFunction(ObjectiveFunctionPtr function,
 
 	objectiveFunctionToAdd.setParametersByDefinition(objectiveFunctionDefinition);
 
+	if(areBoxConstraintsSpecified){
+		Bounds boxConstraints;
+		boxConstraints.setBounds(lowerBounds,upperBounds);
+		objectiveFunctionToAdd.setParameterBounds(boxConstraints);
+	}
+
 	optimizer.addObjectFunction(objectiveFunctionToAdd);
 
 	isObjectiveFunctionSpecified = true;
diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index 3e00a5b..c412f05 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -104,8 +104,6 @@ bool Optimizer::checkSettings(void) const{
 
 void Optimizer::addObjectFunction(ObjectiveFunction &objFunc){
 
-	assert(ifObjectFunctionIsSpecied == false);
-
 	objFun = objFunc;
 
 	designVectorFileName = objFun.getFileNameDesignVector();
-- 
2.43.0


From cb3ca93e64d666b1a7146401ee20a63f43a3a246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 31/59] fix: constraints can be added after the box constraints
 are set

---
 src/API/cppAPI.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 08acf7c..461bbca 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -202,6 +202,10 @@ void RobustDesignOptimizer::addConstraint(ObjectiveFunctionPtr function, std::st
 		throw std::invalid_argument("Null function pointer provided.");
 	}
 
+	if (!isDimensionSpecified) {
+		throw std::invalid_argument("Problem dimension must be specified before the constraints.");
+	}
+
 	// Parse the constraint expression
 	ParsedConstraintExpression exp = parseExpression(expression);
 
@@ -243,6 +247,12 @@ void RobustDesignOptimizer::addConstraint(ObjectiveFunctionPtr function, std::st
 	constraint.setConstraintDefinition(constraintExpression);
 	constraint.setDimension(dimension);
 
+	if (areBoxConstraintsSpecified) {
+		Bounds boxConstraints;
+		boxConstraints.setBounds(lowerBounds, upperBounds);
+		constraint.setParameterBounds(boxConstraints);
+	}
+
 	// Add the constraint to the optimizer
 	optimizer.addConstraint(constraint);
 
-- 
2.43.0


From 3b60f8b52c2dd649c8c5007a0f37d213c4827000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 32/59] fix: a problem dimension that does not fit to the
 functions is rejected by the API

---
 src/API/cppAPI.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 461bbca..9d7fce7 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -121,6 +121,16 @@ void RobustDesignOptimizer::setNameOfTrainingDataFile(std::string filename){
 
 void RobustDesignOptimizer::setDimension(unsigned int dim){
 
+	if(dim == 0){
+		throw std::invalid_argument("Problem dimension must be greater than zero");
+	}
+	if(dim != dimension && (isObjectiveFunctionSpecified || numberOfConstraints > 0)){
+		throw std::invalid_argument("Problem dimension cannot be changed after the functions are specified");
+	}
+	if(dim == dimension){
+		return;
+	}
+
 	dimension = dim;
 	optimizer.setDimension(dimension);
 	isDimensionSpecified = true;
-- 
2.43.0


From c87db409b398dc9fb3d6562958527bde7ebf493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 33/59] fix: name of the training data file given to the API
 takes effect

---
 src/API/cppAPI.cpp                             | 3 ++-
 src/Optimizers/INCLUDE/optimization.hpp        | 1 +
 src/Optimizers/optimization_setter_getters.cpp | 5 +++++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 9d7fce7..6a35559 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -116,7 +116,8 @@ void RobustDesignOptimizer::setNameOfTrainingDataFile(std::string filename){
 	if(filename.empty()){
 		throw std::invalid_argument("Empty file name for the training data");
 	}
-	objectiveFunctionTrainingFilename = name;
+	objectiveFunctionTrainingFilename = filename;
+	optimizer.setFileNameTrainingData(filename);
 }
 
 void RobustDesignOptimizer::setDimension(unsigned int dim){
diff --git a/src/Optimizers/INCLUDE/optimization.hpp b/src/Optimizers/INCLUDE/optimization.hpp
index f3d0df4..db8e5ce 100644
--- a/src/Optimizers/INCLUDE/optimization.hpp
+++ b/src/Optimizers/INCLUDE/optimization.hpp
@@ -345,6 +345,7 @@ public:
 	void setBoxConstraints(const Bounds& boxConstraints);
 
 	void setFileNameDesignVector(std::string filename);
+	void setFileNameTrainingData(const std::string& filename);
 
 	void setDisplayOn(void);
 	void setDisplayOff(void);
diff --git a/src/Optimizers/optimization_setter_getters.cpp b/src/Optimizers/optimization_setter_getters.cpp
index a264f3f..38f2921 100644
--- a/src/Optimizers/optimization_setter_getters.cpp
+++ b/src/Optimizers/optimization_setter_getters.cpp
@@ -46,6 +46,11 @@ void Optimizer::setFileNameDesignVector(std::string filename){
 }
 
 
+void Optimizer::setFileNameTrainingData(const std::string& filename){
+	objFun.setFileNameTrainingData(filename);
+}
+
+
 void Optimizer::setBoxConstraints(const Bounds& boxConstraints) {
 	lowerBounds = boxConstraints.getLowerBounds();
 	upperBounds = boxConstraints.getUpperBounds();
-- 
2.43.0


From 5d2c4d73f40e66e76bdfdef7872475540f5c3591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 34/59] fix: a run through the API does not need a working
 directory

---
 src/API/cppAPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 6a35559..e2cffc5 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -410,7 +410,7 @@ void RobustDesignOptimizer::run(void){
 
 	checkOptimizationSettings();
 
-	if(!changeDirectory(cwd)){
+	if(!cwd.empty() && !changeDirectory(cwd)){
 
 		throw std::invalid_argument("Cannot change to current working directory");
 	}
-- 
2.43.0


From 188ae88b4f6854dc95db32b40a5f06414347a962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:46 +0000
Subject: [PATCH 35/59] fix: a malformed CSV file is rejected before the matrix
 is changed

---
 src/LinearAlgebra/matrix.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/LinearAlgebra/matrix.cpp b/src/LinearAlgebra/matrix.cpp
index 72446ac..6c74340 100644
--- a/src/LinearAlgebra/matrix.cpp
+++ b/src/LinearAlgebra/matrix.cpp
@@ -1013,7 +1013,11 @@ void mat::readFromCSV(const std::string& filename, bool hasHeader) {
 		std::vector<double> row;
 
 		while (std::getline(ss, value, ',')) {
-			row.push_back(std::stod(value));
+			size_t numberOfCharactersRead = 0;
+			row.push_back(std::stod(value, &numberOfCharactersRead));
+			if (value.find_first_not_of(" \t\r", numberOfCharactersRead) != std::string::npos) {
+				throw std::runtime_error("Not a number in row " + std::to_string(data.size()) + ": " + value);
+			}
 		}
 
 		data.push_back(row);
@@ -1021,10 +1025,16 @@ void mat::readFromCSV(const std::string& filename, bool hasHeader) {
 
 	file.close();
 
-	if (data.empty()) {
+	if (data.empty() || data[0].empty()) {
 		throw std::runtime_error("No data found in file: " + filename);
 	}
 
+	for (size_t i = 0; i < data.size(); ++i) {
+		if (data[i].size() != data[0].size()) {
+			throw std::runtime_error("Inconsistent number of columns in row " + std::to_string(i));
+		}
+	}
+
 	// Determine the number of rows and columns
 	nrows = data.size();
 	ncols = data[0].size();
@@ -1035,9 +1045,6 @@ void mat::readFromCSV(const std::string& filename, bool hasHeader) {
 
 	// Fill the matrix with data from the vector
 	for (unsigned int i = 0; i < nrows; ++i) {
-		if (data[i].size() != static_cast<size_t>(ncols)) {
-			throw std::runtime_error("Inconsistent number of columns in row " + std::to_string(i));
-		}
 		for (unsigned int j = 0; j < ncols; ++j) {
 			matrix[j * nrows + i] = data[i][j];  // Column-major order
 		}
-- 
2.43.0


From 798712a8d0fcaed4e3760801559ab195b618d52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 36/59] fix: sample data stay consistent when files are read or
 normalized again

---
 .../INCLUDE/surrogate_model_data.hpp          |  1 +
 src/SurrogateModels/surrogate_model_data.cpp  | 42 +++++++++++++++----
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp b/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp
index 6023ce2..09b5c7d 100644
--- a/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp
+++ b/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp
@@ -181,6 +181,7 @@ public:
 
 private:
 	void checkDimensionAndNumberOfSamples();
+	void loadData(const string& inputFilename);
 };
 
 }
diff --git a/src/SurrogateModels/surrogate_model_data.cpp b/src/SurrogateModels/surrogate_model_data.cpp
index 8d727d1..ff706c1 100644
--- a/src/SurrogateModels/surrogate_model_data.cpp
+++ b/src/SurrogateModels/surrogate_model_data.cpp
@@ -118,8 +118,25 @@ void SurrogateModelData::readData(string inputFilename){
 
 	printMessage("Loading data from the file: " + inputFilename + "\n");
 
+	const SurrogateModelData previousData = *this;
+
+	try {
+		loadData(inputFilename);
+	} catch (...) {
+		*this = previousData;   // a file that cannot be used must not change the data
+		throw;
+	}
+}
+
+
+void SurrogateModelData::loadData(const string& inputFilename){
+
 	rawData.readFromCSV(inputFilename);
 	rawDataWork = rawData;
+	ifDataIsNormalized = false;
+	numberOfValidationSamples = 0;
+	indicesForValidationData.clear();
+	rawDataValidation.reset();
 
 	if(ifDisplay){
 		rawData.print("rawData");
@@ -214,24 +231,29 @@ void SurrogateModelData::readDataTest(string inputFilename) {
 	printMessage("Loading test data from the file: " + inputFilename + "\n");
 
 	// Read data from the CSV file
-	XrawTest.readFromCSV(inputFilename);
+	mat testData;
+	testData.readFromCSV(inputFilename);
+
+	// Check the number of columns in the test data
+	if (testData.getNCols() != dimension + 1 && testData.getNCols() != dimension) {
+		throw std::runtime_error("Problem with test data (CSV format): incorrect number of columns in file: " + inputFilename);
+	}
+
+	XrawTest = testData;
 
 	// Get the number of test samples and print it
 	numberOfTestSamples = XrawTest.getNRows();
 	//   output.printMessage("Number of test samples = ", numberOfTestSamples);
 
-	// Check the number of columns in the test data
 	if (XrawTest.getNCols() == dimension + 1) {
 		// Data contains function values
 		yTest = XrawTest.getCol(dimension);  // Extract the last column for function values
 		XTest = XrawTest.submat(0,numberOfTestSamples - 1,  0, dimension - 1);  // Extract input data
 		ifTestDataHasFunctionValues = true;
-	} else if (XrawTest.getNCols() == dimension) {
+	} else {
 		// Data contains only input values
 		XTest = XrawTest;
-	} else {
-		// Invalid number of columns
-		throw std::runtime_error("Problem with test data (CSV format): incorrect number of columns in file: " + inputFilename);
+		ifTestDataHasFunctionValues = false;
 	}
 
 	// Mark test data as read
@@ -409,11 +431,11 @@ void SurrogateModelData::normalizeSampleInputMatrix(void){
 		throw std::runtime_error("Zero range found in box constraints, leading to potential division by zero.");
 	}
 
-	X = X.normalizeMatrix(xmin,xmax);
+	X = Xraw.normalizeMatrix(xmin,xmax);
 
 	if(numberOfValidationSamples>0){
 		ModelLogger::getInstance().log(INFO,"SurrogateModelData: normalize sample input matrix for validation samples...");
-		XValidation = XValidation.normalizeMatrix(xmin,xmax);
+		XValidation = XrawValidation.normalizeMatrix(xmin,xmax);
 	}
 
 	ifDataIsNormalized = true;
@@ -433,7 +455,7 @@ void SurrogateModelData::normalizeSampleInputMatrixTest(void){
 		throw std::runtime_error("Zero range found in box constraints, leading to potential division by zero.");
 	}
 
-	XTest = XTest.normalizeMatrix(xmin,xmax);
+	XTest = XrawTest.submat(0, numberOfTestSamples - 1, 0, dimension - 1).normalizeMatrix(xmin,xmax);
 
 }
 
@@ -449,6 +471,7 @@ void SurrogateModelData::normalizeDerivativesMatrix(void){
 		/* This factor is assumed to be same for all variables */
 		double scalingFactor = (ub(0) - lb(0))*dimension;
 		assert(scalingFactor > 0.0);
+		assignDirectionalDerivativesVector();
 		directionalDerivatives =  directionalDerivatives*scalingFactor;
 
 	}
@@ -464,6 +487,7 @@ void SurrogateModelData::normalizeGradientMatrix(void){
 	assert(gradient.getNCols() == dimension);
 
 
+	assignGradientMatrix();
 	gradientRaw = gradient;
 
 	for(unsigned int i=0; i<dimension; i++){
-- 
2.43.0


From d38c21b662f40fb043ff5c8df95040e88be82d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 37/59] fix: a surrogate model that reads its data again must
 be normalized and initialized anew

---
 src/SurrogateModels/kriging_training.cpp  | 2 ++
 src/SurrogateModels/linear_regression.cpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index c98d5ae..49294b7 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -113,6 +113,7 @@ void KrigingModel::readData(void) {
 	// Update the number of samples and set the flag indicating data has been read
 	numberOfSamples = data.getNumberOfSamples();
 	ifDataIsRead = true;
+	ifNormalized = false;
 }
 
 
@@ -169,6 +170,7 @@ void KrigingModel::initializeSurrogateModel(void){
 		ModelLogger::getInstance().log(INFO, "KrigingModel::initializeSurrogateModel: Linear model is active");
 
 		linearModel.initializeSurrogateModel();
+		data.assignSampleOutputVector();
 		vec ys = data.getOutputVector();
 		mat X = data.getInputMatrix();
 		vec ysLinearRegression = linearModel.interpolateAll(X);
diff --git a/src/SurrogateModels/linear_regression.cpp b/src/SurrogateModels/linear_regression.cpp
index 4ed19dd..cccd642 100644
--- a/src/SurrogateModels/linear_regression.cpp
+++ b/src/SurrogateModels/linear_regression.cpp
@@ -26,6 +26,7 @@ void LinearModel::readData(void){
 	numberOfSamples = data.getNumberOfSamples();
 
 	ifDataIsRead = true;
+	ifNormalized = false;
 
 }
 
-- 
2.43.0


From 931137b5da860e5dd71b8f63186ebb2bbc0e338c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 38/59] fix: predicted variance is never negative

---
 src/SurrogateModels/kriging_training.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 49294b7..f6e91fe 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -603,7 +603,8 @@ void KrigingModel::interpolateWithVariance(vec xp,double *ftildeOutput,double *s
 
 	double term3 = term2 + term1;
 
-	*sSqrOutput = sigmaSquared* term3;
+	/* rounding errors of an ill-conditioned system must not lead to a negative variance */
+	*sSqrOutput = std::max(0.0, sigmaSquared* term3);
 
 }
 
-- 
2.43.0


From a324420f8d101d58e86770e4306b9661b60986a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 39/59] fix: row and column positions out of range are rejected
 and leave the matrix unchanged

---
 src/LinearAlgebra/matrix.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/LinearAlgebra/matrix.cpp b/src/LinearAlgebra/matrix.cpp
index 6c74340..c3074dd 100644
--- a/src/LinearAlgebra/matrix.cpp
+++ b/src/LinearAlgebra/matrix.cpp
@@ -192,12 +192,12 @@ void mat::addRow(const vec& rowVec, int position) {
 		position = nrows;
 	}
 
-	if(isEmpty()){
-		ncols = rowVec.getSize();
+	if (position < 0 || position > static_cast<int>(nrows)) {
+		throw std::invalid_argument("Position out of range.");
 	}
 
-	if (position > static_cast<int>(nrows)) {
-		throw std::invalid_argument("Position out of range.");
+	if(isEmpty()){
+		ncols = rowVec.getSize();
 	}
 	if (rowVec.getSize() != ncols) {
 		throw std::invalid_argument("Row vector size does not match the number of columns.");
@@ -235,13 +235,12 @@ void mat::addColumn(const vec& colVec, int position) {
 		position = ncols;
 	}
 
-	if(isEmpty()){
-		nrows = colVec.getSize();
+	if (position < 0 || position > static_cast<int>(ncols)) {
+		throw std::invalid_argument("Position out of range.");
 	}
 
-
-	if (position > static_cast<int>(ncols)) {
-		throw std::invalid_argument("Position out of range.");
+	if(isEmpty()){
+		nrows = colVec.getSize();
 	}
 	if (colVec.getSize() != nrows) {
 		throw std::invalid_argument("Column vector size does not match the number of rows.");
@@ -282,7 +281,7 @@ void mat::deleteRow(int rowIndex) {
 		rowIndex = nrows-1;
 	}
 
-	if (rowIndex >= static_cast<int>(nrows)) {
+	if (rowIndex < 0 || rowIndex >= static_cast<int>(nrows)) {
 		throw std::out_of_range("Row index out of range.");
 	}
 
-- 
2.43.0


From 24f474d05859fb134ed3716880ec2dc4de7e67e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 40/59] fix: a vector file with characters after a number is
 rejected

---
 src/LinearAlgebra/vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinearAlgebra/vector.cpp b/src/LinearAlgebra/vector.cpp
index 0c6ff15..9f6a322 100644
--- a/src/LinearAlgebra/vector.cpp
+++ b/src/LinearAlgebra/vector.cpp
@@ -716,7 +716,7 @@ void vec::readFromCSV(const std::string& filename) {
 	while (std::getline(inFile, line)) {
 		std::istringstream ss(line);
 		double value;
-		if (!(ss >> value)) {
+		if (!(ss >> value) || !(ss >> std::ws).eof()) {
 			throw std::runtime_error("Invalid data in CSV file.");
 		}
 		tempData.push_back(value);
-- 
2.43.0


From 1e2b812f0a176e8462d39e085f19d01329d83826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:18 +0000
Subject: [PATCH 41/59] Observation hooks: number of training iterations

---
 src/SurrogateModels/kriging_training.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index f6e91fe..d459aac 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -828,7 +828,7 @@ void KrigingModel::train() {
 
 	ifModelTrainingIsDone = true;
 	RODEO_VERIF_EVENT("model_trained", {{"samples", verif::num(numberOfSamples)}, {"threads", verif::num(numberOfThreads)},
-		{"parameters", verif::arr(correlationFunction.getHyperParameters())}});
+		{"iterations", verif::num(numberOfTrainingIterations)}, {"parameters", verif::arr(correlationFunction.getHyperParameters())}});
 }
 
 
-- 
2.43.0


From b2e6663dbac749ce1048ab164a31fbe6332bb99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:33 +0000
Subject: [PATCH 42/59] Observation hooks: linear model

---
 src/SurrogateModels/kriging_training.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index d459aac..05cea34 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -827,7 +827,7 @@ void KrigingModel::train() {
 	ModelLogger::getInstance().log(INFO, "Model training is done.");
 
 	ifModelTrainingIsDone = true;
-	RODEO_VERIF_EVENT("model_trained", {{"samples", verif::num(numberOfSamples)}, {"threads", verif::num(numberOfThreads)},
+	RODEO_VERIF_EVENT("model_trained", {{"samples", verif::num(numberOfSamples)}, {"threads", verif::num(numberOfThreads)}, {"linear", verif::num(ifUsesLinearRegression)},
 		{"iterations", verif::num(numberOfTrainingIterations)}, {"parameters", verif::arr(correlationFunction.getHyperParameters())}});
 }
 
-- 
2.43.0


From 0aeef47c4f91adb83e03193bcaa712fdd2a93e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:27 +0000
Subject: [PATCH 43/59] fix: an unterminated parameter block is rejected

---
 src/Driver/string_functions.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Driver/string_functions.cpp b/src/Driver/string_functions.cpp
index 25e8b2d..1191f95 100644
--- a/src/Driver/string_functions.cpp
+++ b/src/Driver/string_functions.cpp
@@ -135,7 +135,11 @@ std::vector<std::string> extractContents(const std::string& input, const std::st
             // Search for the next occurrence of startTag
             startPos = input.find(startTag, endPos + endTag.length());
         } else {
-            break; // No matching endTag found, exit loop
+            // No matching endTag found: only an empty element may be left open
+            if (input.find_first_not_of(" \t\n\r\f\v", startPos + startTag.length()) != std::string::npos) {
+                throw std::runtime_error("End tag not found for the key: " + key);
+            }
+            break;
         }
     }
 
-- 
2.43.0


From 15b67aac02774ad15cdcf06463a1cc52dcc9ca52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:18 +0000
Subject: [PATCH 44/59] fix: a relative working directory keeps its meaning in
 later runs

---
 src/API/cppAPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index e2cffc5..b57c3e0 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -59,7 +59,7 @@ void RobustDesignOptimizer::setCurrentWorkingDirectory(string directory){
 		throw std::invalid_argument("Current working directory is not valid");
 	}
 
-	cwd = directory;
+	cwd = std::filesystem::absolute(directory).string();
 
 }
 
-- 
2.43.0


From 57215998a9825c757bfe75ff7c77d377e611afc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:18 +0000
Subject: [PATCH 45/59] fix: a second optimization with the same optimizer
 starts anew

---
 src/Optimizers/INCLUDE/optimization_history.hpp |  1 +
 src/Optimizers/optimization.cpp                 | 10 ++++++++++
 src/Optimizers/optimization_history.cpp         |  4 ++++
 3 files changed, 15 insertions(+)

diff --git a/src/Optimizers/INCLUDE/optimization_history.hpp b/src/Optimizers/INCLUDE/optimization_history.hpp
index ecdf50b..d98c466 100644
--- a/src/Optimizers/INCLUDE/optimization_history.hpp
+++ b/src/Optimizers/INCLUDE/optimization_history.hpp
@@ -48,6 +48,7 @@ public:
 
 	vector<string> setHeader(void) const;
 	void addConstraintName(const std::string& name) ;
+	void clearConstraintNames(void);
 	void setObjectiveFunctionName(string);
 
 	void saveOptimizationHistoryFile(void);
diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index c412f05..39af2da 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -65,6 +65,15 @@ void Optimizer::initializeOptimizerSettings(void) {
 
 	trLengthMax = 1.0;
 	trLengthMin = pow(0.5,8)*trLengthMax;
+
+	/* every optimization starts anew, also if another one has been performed before */
+	outerIterationNumber = 0;
+	trLength = 0.8;
+	trSuccessCounter = 0;
+	trFailureCounter = 0;
+	sigmaMultiplier = 1.0;
+	bestDeltaImprovementValueAchieved = 0.0;
+	statistics.numberOfObjectiveFunctionEvaluations = 0;
 }
 
 
@@ -1126,6 +1135,7 @@ void Optimizer::initializeOptimizationHistory() {
 	history.setObjectiveFunctionName(objFun.getName());
 
 	// If constrained, add constraint names to the history
+	history.clearConstraintNames();
 	if (isConstrained()) {
 		for (const auto& constraint : constraintFunctions) {
 			history.addConstraintName(constraint.getName());
diff --git a/src/Optimizers/optimization_history.cpp b/src/Optimizers/optimization_history.cpp
index 91b2b47..1cdd6c9 100644
--- a/src/Optimizers/optimization_history.cpp
+++ b/src/Optimizers/optimization_history.cpp
@@ -11,6 +11,10 @@
 namespace Rodop{
 
 
+void OptimizationHistory::clearConstraintNames(void) {
+	constraintNames.clear();
+}
+
 void OptimizationHistory::addConstraintName(const std::string& name) {
 	// Ensure the constraint name is not empty
 	if (name.empty()) {
-- 
2.43.0


From 1af67195e9451838dedff11daf39d27a282104a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 46/59] fix: designs of experiments are stored with the
 precision of later samples

---
 src/API/cppAPI.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index b57c3e0..e0d6fe1 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -320,7 +320,7 @@ void RobustDesignOptimizer::performDoEForConstraints(void){
 
         try {
             // Save all training data for this constraint at once, after collecting all rows
-            trainingDataForConstraint.saveAsCSV(constraintsTrainingDataFilename[iConstraint]);
+            trainingDataForConstraint.saveAsCSV(constraintsTrainingDataFilename[iConstraint], 12);
         } catch (const std::exception& e) {
             std::cerr << "Error saving training data for constraint " << iConstraint
                       << " to file: " << e.what() << std::endl;
@@ -376,7 +376,7 @@ void RobustDesignOptimizer::performDoE(void) {
 
 		try {
 			// Save the training data
-			trainingData.saveAsCSV(objectiveFunctionTrainingFilename);
+			trainingData.saveAsCSV(objectiveFunctionTrainingFilename, 12);
 		} catch (const std::exception &e) {
 			throw std::runtime_error("DoE process will be killed.");
 		}
-- 
2.43.0


From 1d5d3aaa38547ea33d76f2e38b00ad48101853c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:00 +0000
Subject: [PATCH 47/59] fix: operations on sample data in the wrong order or
 with a wrong size are rejected

---
 .../INCLUDE/surrogate_model_data.hpp          |  1 +
 src/SurrogateModels/linear_regression.cpp     |  4 +-
 src/SurrogateModels/surrogate_model.cpp       |  4 +-
 src/SurrogateModels/surrogate_model_data.cpp  | 63 ++++++++++++++-----
 4 files changed, 55 insertions(+), 17 deletions(-)

diff --git a/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp b/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp
index 09b5c7d..387ec48 100644
--- a/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp
+++ b/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp
@@ -181,6 +181,7 @@ public:
 
 private:
 	void checkDimensionAndNumberOfSamples();
+	void checkIfDataCanBeNormalized() const;
 	void loadData(const string& inputFilename);
 };
 
diff --git a/src/SurrogateModels/linear_regression.cpp b/src/SurrogateModels/linear_regression.cpp
index cccd642..ed18596 100644
--- a/src/SurrogateModels/linear_regression.cpp
+++ b/src/SurrogateModels/linear_regression.cpp
@@ -32,7 +32,9 @@ void LinearModel::readData(void){
 
 void LinearModel::normalizeData(void){
 
-	assert(ifDataIsRead);
+	if (!ifDataIsRead) {
+		throw std::runtime_error("LinearModel::normalizeData: Data has not been read.");
+	}
 
 	data.normalize();
 	ifNormalized = true;
diff --git a/src/SurrogateModels/surrogate_model.cpp b/src/SurrogateModels/surrogate_model.cpp
index a4a3d23..fdaabfc 100644
--- a/src/SurrogateModels/surrogate_model.cpp
+++ b/src/SurrogateModels/surrogate_model.cpp
@@ -135,7 +135,9 @@ void SurrogateModel::readDataTest(void){
 
 unsigned int SurrogateModel::countHowManySamplesAreWithinBounds(vec lb, vec ub){
 
-	assert(ifDataIsRead);
+	if (!ifDataIsRead) {
+		throw std::runtime_error("SurrogateModel::countHowManySamplesAreWithinBounds: Data has not been read.");
+	}
 
 	mat trainingData;
 	trainingData = data.getRawData();
diff --git a/src/SurrogateModels/surrogate_model_data.cpp b/src/SurrogateModels/surrogate_model_data.cpp
index ff706c1..d787352 100644
--- a/src/SurrogateModels/surrogate_model_data.cpp
+++ b/src/SurrogateModels/surrogate_model_data.cpp
@@ -113,8 +113,12 @@ std::vector<int> SurrogateModelData::generateRandomIndicesForValidationData(int
 
 void SurrogateModelData::readData(string inputFilename){
 
-	assert(!inputFilename.empty());
-	assert(!(ifDataHasDirectionalDerivatives == true && ifDataHasGradients == true));
+	if (inputFilename.empty()) {
+		throw std::invalid_argument("Input filename is empty.");
+	}
+	if (ifDataHasDirectionalDerivatives && ifDataHasGradients) {
+		throw std::runtime_error("Training data cannot have both gradients and directional derivatives.");
+	}
 
 	printMessage("Loading data from the file: " + inputFilename + "\n");
 
@@ -191,6 +195,8 @@ void SurrogateModelData::revertBackToFullData() {
 
 	ModelLogger::getInstance().log(INFO, "SurrogateModelData: Reverting back to use full data...");
 
+	checkIfDataCanBeNormalized();
+
 	numberOfValidationSamples = 0;
 	rawDataWork = rawData;
 	numberOfSamples = rawData.getNRows();
@@ -268,6 +274,12 @@ void SurrogateModelData::assignDimensionFromData(void) {
 		throw std::runtime_error("Error: RawDataWork is empty (assign dimension from data).");
 	}
 	unsigned int dimensionOfTrainingData;
+	unsigned int numberOfColumns = rawDataWork.getNCols();
+
+	// gradients: dim inputs, function value, dim derivatives; directional derivatives: dim inputs, function value, derivative, direction with dim entries
+	if ((ifDataHasGradients && numberOfColumns % 2 == 0) || (ifDataHasDirectionalDerivatives && (numberOfColumns < 4 || numberOfColumns % 2 == 1))) {
+		throw std::runtime_error("Error: Number of columns of the training data does not fit to data with derivatives (assign dimension from data).");
+	}
 
 	// Determine the dimension based on the type of data
 	if (ifDataHasGradients) {
@@ -389,10 +401,29 @@ void SurrogateModelData::assignDifferentiationDirectionMatrix(void){
 	}
 }
 
+void SurrogateModelData::checkIfDataCanBeNormalized() const{
+
+	if (!ifDataIsRead) {
+		throw std::runtime_error("Data has not been read.");
+	}
+	if (!boxConstraints.areBoundsSet()) {
+		throw std::runtime_error("Box constraints are not set.");
+	}
+	if (boxConstraints.getDimension() != dimension) {
+		throw std::runtime_error("Box constraints' dimension does not match the input matrix dimension.");
+	}
+	if (ifDataHasGradients && rawDataWork.getNCols() != 2*dimension + 1) {
+		throw std::runtime_error("Data has been read without gradients.");
+	}
+	if (ifDataHasDirectionalDerivatives && rawDataWork.getNCols() != 2*dimension + 2) {
+		throw std::runtime_error("Data has been read without directional derivatives.");
+	}
+}
+
+
 void SurrogateModelData::normalize(void){
 
-	assert(ifDataIsRead);
-	assert(boxConstraints.areBoundsSet());
+	checkIfDataCanBeNormalized();
 
 	normalizeSampleInputMatrix();
 	normalizeDerivativesMatrix();
@@ -448,6 +479,10 @@ void SurrogateModelData::normalizeSampleInputMatrixTest(void){
 		throw std::runtime_error("Box constraints are not set.");
 	}
 
+	if (!ifTestDataIsRead) {
+		throw std::runtime_error("Test data has not been read.");
+	}
+
 	vec xmin = boxConstraints.getLowerBounds();
 	vec xmax = boxConstraints.getUpperBounds();
 	vec deltax = xmax - xmin;
@@ -463,9 +498,6 @@ void SurrogateModelData::normalizeDerivativesMatrix(void){
 
 	if(ifDataHasDirectionalDerivatives){
 
-		assert(ifDataIsRead);
-		assert(boxConstraints.areBoundsSet());
-
 		vec lb = boxConstraints.getLowerBounds();
 		vec ub = boxConstraints.getUpperBounds();
 		/* This factor is assumed to be same for all variables */
@@ -481,11 +513,6 @@ void SurrogateModelData::normalizeDerivativesMatrix(void){
 
 void SurrogateModelData::normalizeGradientMatrix(void){
 
-	assert(ifDataIsRead);
-	assert(boxConstraints.areBoundsSet());
-	assert(dimension>0);
-	assert(gradient.getNCols() == dimension);
-
 
 	assignGradientMatrix();
 	gradientRaw = gradient;
@@ -588,7 +615,9 @@ vec SurrogateModelData::getOutputVectorValidation(void) const{
 
 vec SurrogateModelData::getOutputVectorTest(void) const{
 
-	assert(ifTestDataIsRead);
+	if (!ifTestDataIsRead) {
+		throw std::runtime_error("Test data has not been read.");
+	}
 	return XrawTest.getCol(dimension);
 
 }
@@ -605,7 +634,9 @@ void SurrogateModelData::setValidationRatio(double val){
 
 void SurrogateModelData::setOutputVector(vec yIn){
 
-	assert(yIn.getSize() == numberOfSamples);
+	if (!ifDataIsRead || yIn.getSize() != numberOfSamples) {
+		throw std::invalid_argument("Size of the output vector does not match the number of samples.");
+	}
 	y = yIn;
 
 
@@ -641,7 +672,9 @@ mat SurrogateModelData::getGradientMatrix(void) const{
 
 void SurrogateModelData::setBoxConstraints(Bounds boxConstraintsInput){
 
-	assert(boxConstraintsInput.areBoundsSet());
+	if (!boxConstraintsInput.areBoundsSet()) {
+		throw std::invalid_argument("Box constraints are not set.");
+	}
 
 	boxConstraints = boxConstraintsInput;
 
-- 
2.43.0


From 9057ef42fb2c2c7fb754815362ceeeff236a52aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:00 +0000
Subject: [PATCH 48/59] fix: a surrogate model that has read its data again is
 not initialized

---
 src/SurrogateModels/kriging_training.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 05cea34..0e376a4 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -114,6 +114,7 @@ void KrigingModel::readData(void) {
 	numberOfSamples = data.getNumberOfSamples();
 	ifDataIsRead = true;
 	ifNormalized = false;
+	ifInitialized = false;
 }
 
 
-- 
2.43.0


From f318c1956fa36c0c9a97b06c75031f8ad35d4ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:00 +0000
Subject: [PATCH 49/59] fix: a sample is not appended to the data file of a
 model that cannot use it

---
 src/SurrogateModels/kriging_training.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 0e376a4..8b67906 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -420,6 +420,9 @@ void KrigingModel::addNewSampleToData(vec newsample) {
 	if (newsample.getSize() != data.getDimension() + 1) {
 		throw std::runtime_error("KrigingModel::addNewSampleToData: Sample size does not match expected dimension.");
 	}
+	if (!ifDataIsRead || !boxConstraints.areBoundsSet()) {
+		throw std::runtime_error("KrigingModel::addNewSampleToData: Data must be read and box constraints must be set first.");
+	}
 
 	ModelLogger::getInstance().log(INFO, "KrigingModel: Adding new sample to the training data");
 	ModelLogger::getInstance().log(INFO, "sample = " + newsample.toString());
-- 
2.43.0


From 02262ab09cf973312c048f1978e67bdfb965a713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:36 +0000
Subject: [PATCH 50/59] fix: validation samples of data read before are
 forgotten

---
 src/SurrogateModels/surrogate_model_data.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SurrogateModels/surrogate_model_data.cpp b/src/SurrogateModels/surrogate_model_data.cpp
index d787352..8cd5ee4 100644
--- a/src/SurrogateModels/surrogate_model_data.cpp
+++ b/src/SurrogateModels/surrogate_model_data.cpp
@@ -141,6 +141,9 @@ void SurrogateModelData::loadData(const string& inputFilename){
 	numberOfValidationSamples = 0;
 	indicesForValidationData.clear();
 	rawDataValidation.reset();
+	XrawValidation.reset();
+	XValidation.reset();
+	yValidation.reset();
 
 	if(ifDisplay){
 		rawData.print("rawData");
-- 
2.43.0


From 3f099de65bab63941aa3352f84f15e4adc2b1043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:50 +0000
Subject: [PATCH 51/59] fix: predictions are compared with the training samples
 they belong to

---
 src/SurrogateModels/INCLUDE/surrogate_model_data.hpp | 2 ++
 src/SurrogateModels/surrogate_model.cpp              | 4 ++--
 src/SurrogateModels/surrogate_model_data.cpp         | 4 ++++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp b/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp
index 387ec48..667a8dd 100644
--- a/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp
+++ b/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp
@@ -135,6 +135,8 @@ public:
 	void setDimension(unsigned int);
 
 	mat getRawData(void) const;
+	/* raw data without the samples for validation */
+	mat getRawTrainingData(void) const;
 
 	vec getRowX(unsigned int index) const;
 	vec getRowXTest(unsigned int index) const;
diff --git a/src/SurrogateModels/surrogate_model.cpp b/src/SurrogateModels/surrogate_model.cpp
index fdaabfc..472da49 100644
--- a/src/SurrogateModels/surrogate_model.cpp
+++ b/src/SurrogateModels/surrogate_model.cpp
@@ -140,7 +140,7 @@ unsigned int SurrogateModel::countHowManySamplesAreWithinBounds(vec lb, vec ub){
 	}
 
 	mat trainingData;
-	trainingData = data.getRawData();
+	trainingData = data.getRawTrainingData();
 
 	unsigned int N   = data.getNumberOfSamples();
 	unsigned int dim = data.getDimension();
@@ -201,7 +201,7 @@ double SurrogateModel::calculateInSampleError(string mode) const{
 	ModelLogger::getInstance().log(INFO, "Surrogate model: Calculating in sample error using " + std::to_string(data.getNumberOfSamples()) + " samples");
 
 	vec fTildeValues(data.getNumberOfSamples());
-	mat rawData = data.getRawData();
+	mat rawData = data.getRawTrainingData();
 	vec fExact = rawData.getCol(dimension);
 
 	mat X = data.getInputMatrix();
diff --git a/src/SurrogateModels/surrogate_model_data.cpp b/src/SurrogateModels/surrogate_model_data.cpp
index 8cd5ee4..b65f90f 100644
--- a/src/SurrogateModels/surrogate_model_data.cpp
+++ b/src/SurrogateModels/surrogate_model_data.cpp
@@ -60,6 +60,10 @@ mat SurrogateModelData::getRawData(void) const{
 	return rawData;
 }
 
+mat SurrogateModelData::getRawTrainingData(void) const{
+	return rawDataWork;
+}
+
 
 void SurrogateModelData::setGradientsOn(void){
 	ifDataHasGradients = true;
-- 
2.43.0


From 1c1b6ac5dbbb9e9898b9ec041e2f3c5230a9025f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:59 +0000
Subject: [PATCH 52/59] fix: a model is not updated with new data before its
 bounds are known

---
 src/SurrogateModels/INCLUDE/kriging_training.hpp |  1 +
 src/SurrogateModels/kriging_training.cpp         | 14 ++++++++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/SurrogateModels/INCLUDE/kriging_training.hpp b/src/SurrogateModels/INCLUDE/kriging_training.hpp
index 62af019..aebb67f 100644
--- a/src/SurrogateModels/INCLUDE/kriging_training.hpp
+++ b/src/SurrogateModels/INCLUDE/kriging_training.hpp
@@ -59,6 +59,7 @@ private:
 	void calculateBeta0(void);
 	void checkDimension();
 	void checkIfDataIsRead();
+	void checkIfBoxConstraintsAreSet() const;
 	void checkFilenameHyperparameters() const;
 	void checkIfDataIsNormalized();
 
diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 8b67906..13d19bd 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -139,6 +139,13 @@ void KrigingModel::checkIfDataIsRead() {
 	}
 }
 
+void KrigingModel::checkIfBoxConstraintsAreSet() const {
+	if (!boxConstraints.areBoundsSet()) {
+		ModelLogger::getInstance().log(ERROR, "KrigingModel: Box constraints are not set.");
+		throw std::runtime_error("KrigingModel: Box constraints are not set.");
+	}
+}
+
 void KrigingModel::initializeSurrogateModel(void){
 
 	checkDimension();
@@ -420,9 +427,8 @@ void KrigingModel::addNewSampleToData(vec newsample) {
 	if (newsample.getSize() != data.getDimension() + 1) {
 		throw std::runtime_error("KrigingModel::addNewSampleToData: Sample size does not match expected dimension.");
 	}
-	if (!ifDataIsRead || !boxConstraints.areBoundsSet()) {
-		throw std::runtime_error("KrigingModel::addNewSampleToData: Data must be read and box constraints must be set first.");
-	}
+	checkIfDataIsRead();
+	checkIfBoxConstraintsAreSet();
 
 	ModelLogger::getInstance().log(INFO, "KrigingModel: Adding new sample to the training data");
 	ModelLogger::getInstance().log(INFO, "sample = " + newsample.toString());
@@ -539,7 +545,7 @@ void KrigingModel::checkAuxilliaryFields(void) const{
 
 void KrigingModel::updateModelWithNewData(void){
 
-	resetDataObjects();
+	checkIfBoxConstraintsAreSet();
 	readData();
 	normalizeData();
 	initializeSurrogateModel();
-- 
2.43.0


From f72c8b8a42235a148fec2894ef6fd6211dac7049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 53/59] fix: training with validation samples is rejected if
 there are none

---
 src/SurrogateModels/kriging_training.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 13d19bd..0be6571 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -719,6 +719,10 @@ void KrigingModel::train() {
 		if(ifHasValidationSamples){
 			setObjectiveFunctionTypeForModelTraining(VALIDATION_ERROR);
 		}
+		if(objectiveFunctionType == VALIDATION_ERROR && data.getNumberOfSamplesValidation() == 0){
+			ModelLogger::getInstance().log(ERROR, "KrigingModel::train: There are no validation samples.");
+			throw std::runtime_error("KrigingModel::train: There are no validation samples.");
+		}
 
 
 		// Setting up bounds for hyperparameter optimization
-- 
2.43.0


From 2d3cc7c62485614a23cee8e9e56dda8e1f350538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:31 +0000
Subject: [PATCH 54/59] fix: test data are evaluated only with an initialized
 model and after their normalization

---
 src/SurrogateModels/surrogate_model.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SurrogateModels/surrogate_model.cpp b/src/SurrogateModels/surrogate_model.cpp
index 472da49..70da193 100644
--- a/src/SurrogateModels/surrogate_model.cpp
+++ b/src/SurrogateModels/surrogate_model.cpp
@@ -131,6 +131,7 @@ void SurrogateModel::readDataTest(void){
 	data.readDataTest(filenameDataInputTest);
 
 	ifTestDataIsRead = true;
+	ifNormalizedTestData = false;
 }
 
 unsigned int SurrogateModel::countHowManySamplesAreWithinBounds(vec lb, vec ub){
@@ -364,6 +365,10 @@ double SurrogateModel::calculateValidationError(void) {
 
 void SurrogateModel::tryOnTestData(string mode){
 
+	if(!ifInitialized){
+		throw std::runtime_error("Model must be initialized before the test data are evaluated.");
+	}
+
 	if(!ifNormalizedTestData){
 		throw std::runtime_error("Test data must be normalized first. Please call the normalization method before calculating the test error.");
 	}
-- 
2.43.0


From 39a3ffa5b17534121ae3953ca39fa6559c452bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:31 +0000
Subject: [PATCH 55/59] fix: results of a further test can be saved

---
 src/SurrogateModels/surrogate_model.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SurrogateModels/surrogate_model.cpp b/src/SurrogateModels/surrogate_model.cpp
index 70da193..bc3a661 100644
--- a/src/SurrogateModels/surrogate_model.cpp
+++ b/src/SurrogateModels/surrogate_model.cpp
@@ -259,6 +259,8 @@ double SurrogateModel::calculateOutSampleError(void){
 
 void SurrogateModel::writeFileHeaderForTestResults() {
 
+	testResultsFileHeader.clear();
+
 	unsigned int dim = data.getDimension();
 	for (unsigned int i = 0; i < dim; i++) {
 		string variableName = "x" + std::to_string(i + 1);
-- 
2.43.0


From 18831a07a17cefc5ace557f81807e7f81b462de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 56/59] fix: individuals are stored with full precision

---
 src/InternalOptimizers/ea_population.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index 4c40578..c004be0 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -233,7 +233,7 @@ void EAPopulation::writeToCSV(const std::string& filename) const {
 	// Write each individual's data to the file
 	for (const auto& individual : population) {
 		outFile << individual.getId() << ",";
-		outFile << std::setprecision(9) << std::scientific << individual.getObjectiveFunctionValue() << ",";
+		outFile << std::setprecision(std::numeric_limits<double>::max_digits10 - 1) << std::scientific << individual.getObjectiveFunctionValue() << ",";
 		outFile << individual.getFitnessValue() << ",";
 		outFile << individual.getReproductionProbability() << ",";
 		outFile << individual.getDeathProbability();
-- 
2.43.0


From c7f90ca7b1cc3177757a56668bc939e9289c5904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:22 +0000
Subject: [PATCH 57/59] fix: population is kept if the file to be read is
 damaged

---
 src/InternalOptimizers/ea_population.cpp | 30 ++++++++++++------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index c004be0..b58ae37 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -259,8 +259,7 @@ void EAPopulation::readFromCSV(const std::string& filename) {
 		throw std::runtime_error("Cannot open file: " + filename);
 	}
 
-	reset();  // Clear any existing data
-
+	std::vector<EAIndividual> individuals;
 	std::string line;
 
 	// Skip the header line
@@ -273,35 +272,30 @@ void EAPopulation::readFromCSV(const std::string& filename) {
 		std::string token;
 
 		// Read ID
-		std::getline(ss, token, ',');
-		if (token.empty()) {
+		if (!std::getline(ss, token, ',') || token.empty()) {
 			throw std::runtime_error("Missing ID value in CSV");
 		}
 		unsigned int id = std::stoi(token);
 		// Read objective function value
-		std::getline(ss, token, ',');
-		if (token.empty()) {
+		if (!std::getline(ss, token, ',') || token.empty()) {
 			throw std::runtime_error("Missing objective function value in CSV");
 		}
 		double objectiveFunctionValue = std::stod(token);
 
 		// Read fitness value
-		std::getline(ss, token, ',');
-		if (token.empty()) {
+		if (!std::getline(ss, token, ',') || token.empty()) {
 			throw std::runtime_error("Missing fitness value in CSV");
 		}
 		double fitnessValue = std::stod(token);
 
 		// Read reproduction probability
-		std::getline(ss, token, ',');
-		if (token.empty()) {
+		if (!std::getline(ss, token, ',') || token.empty()) {
 			throw std::runtime_error("Missing reproduction probability in CSV");
 		}
 		double reproductionProbability = std::stod(token);
 
 		// Read death probability
-		std::getline(ss, token, ',');
-		if (token.empty()) {
+		if (!std::getline(ss, token, ',') || token.empty()) {
 			throw std::runtime_error("Missing death probability in CSV");
 		}
 		double deathProbability = std::stod(token);
@@ -309,13 +303,15 @@ void EAPopulation::readFromCSV(const std::string& filename) {
 		// Read genes
 		std::vector<double> genes;
 		for (unsigned int i = 0; i < dimension; ++i) {
-			std::getline(ss, token, ',');
-			if (token.empty()) {
+			if (!std::getline(ss, token, ',') || token.empty()) {
 				throw std::runtime_error("Missing gene value in CSV");
 			}
 			genes.push_back(std::stod(token));
 		}
 
+		if (std::getline(ss, token)) {
+			throw std::runtime_error("Too many values in CSV");
+		}
 
 		// Create an individual and add to population
 		EAIndividual individual(dimension);
@@ -333,11 +329,15 @@ void EAPopulation::readFromCSV(const std::string& filename) {
 		individual.setReproductionProbabilityValue(reproductionProbability);
 		individual.setDeathProbabilityValue(deathProbability);
 
-		addIndividual(individual);
+		individuals.push_back(individual);
 	}
 
 	inFile.close();
 
+	/* existing data are replaced only if the file could be read completely */
+	reset();
+	addAGroupOfIndividuals(individuals);
+
 }
 
 
-- 
2.43.0


From f1f05a1c8fdb322a8779c18062fd131a4a024bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:22 +0000
Subject: [PATCH 58/59] fix: bounds of the internal optimizers must not be
 empty

---
 src/InternalOptimizers/general_purpose_optimizer.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/InternalOptimizers/general_purpose_optimizer.cpp b/src/InternalOptimizers/general_purpose_optimizer.cpp
index a9298c2..258ae24 100644
--- a/src/InternalOptimizers/general_purpose_optimizer.cpp
+++ b/src/InternalOptimizers/general_purpose_optimizer.cpp
@@ -23,6 +23,10 @@ void GeneralPurposeOptimizer::setBounds(double lb, double ub) {
         throw std::invalid_argument("Dimension must be specified first.");
     }
 
+    if (!(ub > lb)) {
+        throw std::invalid_argument("Lower bound must be smaller than upper bound.");
+    }
+
     lowerBounds.resize(dimension);
     lowerBounds.fill(lb);
 
@@ -39,6 +43,12 @@ void GeneralPurposeOptimizer::setBounds(std::vector<double> lb, std::vector<doub
         throw std::invalid_argument("Lower bound and upper bound vectors must match the dimension size.");
     }
 
+    for (size_t i = 0; i < lb.size(); ++i) {
+        if (!(ub[i] > lb[i])) {
+            throw std::invalid_argument("Lower bounds must be smaller than upper bounds.");
+        }
+    }
+
     lowerBounds.fromStdVector(lb);
     upperBounds.fromStdVector(ub);
 
-- 
2.43.0


From 3af0c4a4642b99d482c377a410879e7714574102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:26 +0000
Subject: [PATCH 59/59] fix: ids of a population stay unique after a rejected
 optimization

---
 src/InternalOptimizers/ea_optimizer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/InternalOptimizers/ea_optimizer.cpp b/src/InternalOptimizers/ea_optimizer.cpp
index 34d8e33..e98761b 100644
--- a/src/InternalOptimizers/ea_optimizer.cpp
+++ b/src/InternalOptimizers/ea_optimizer.cpp
@@ -439,16 +439,18 @@ void EAOptimizer::setWarmStartOff(void){
 
 void EAOptimizer::optimize(void){
 
-	totalNumberOfGeneratedIndividuals = 0;
-	lastIdUsed = 0;
 	//	output.printMessage("EA Optimizer: start...");
 	checkIfSettingsAreOk();
 
+	totalNumberOfGeneratedIndividuals = 0;
+
 	if(ifWarmStart){
 
 		readWarmRestartFile();
 	}
 	else{
+		/* the initial population replaces all individuals */
+		lastIdUsed = 0;
 		//		output.printMessage("EA Optimizer: initializing population...");
 		initializePopulation();
 
-- 
2.43.0

