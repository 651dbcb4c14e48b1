#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the property texts)."""
import json, os
O='src/Optimizers/'; F='src/ObjectiveFunctions/'; S='src/SurrogateModels/'; I='src/InternalOptimizers/'; D='src/Driver/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p('P01','Evaluation budget and evaluation order of a run',
 'A run with a budget of N performs exactly N iterations after the initial samples: each evaluates the objective exactly once at one new design and then every constraint exactly once at that same design, and the run ends normally right after the N-th. Initial samples are never evaluated again, and nothing else is evaluated.',
 ['configurations','inputs','histories'],'every budget, dimension, number of constraints, number of initial samples and every sequence of values the user functions return, through the C++ classes, the API and the command line',
 'The four stable tests run one fixed configuration each and only look whether the result file exists; they never count evaluations.',
 [O+'efficient_global_optimization.cpp',O+'optimization_constraint_functions.cpp',F+'objective_function.cpp',F+'constraint_functions.cpp'],
 [('outer loop and its termination test',O+'efficient_global_optimization.cpp: performEfficientGlobalOptimizationOnlyWithFunctionalValues'),('evaluateConstraints',O+'optimization_constraint_functions.cpp')],
 [('outerIterationNumber','iterations started',O+'INCLUDE/optimization.hpp')],['calls of the user functions','optimizationHistory.csv'],None)
p('P02','Optimization history is complete, ordered and append-only',
 'The optimization history lists the initial samples in data-file order, then every evaluated design in evaluation order, one row each holding that design\'s parameters, objective, constraint values, improvement and feasibility under the matching column names; earlier rows never change or disappear. The history file on disk equals that history (to its six printed decimals) before the next evaluation starts and when the run ends.',
 ['histories','inputs','configurations'],'every run: every sequence of returned values, number of constraints, parameter names',
 'Unit tests of the history class add one row; no test compares the file with what was evaluated over a run.',
 [O+'optimization_history.cpp',O+'optimization.cpp','src/LinearAlgebra/matrix.cpp'],
 [('updateOptimizationHistory, saveOptimizationHistoryFile, setHeader',O+'optimization_history.cpp'),('setOptimizationHistoryData',O+'optimization.cpp')],
 [('data','history rows',O+'INCLUDE/optimization_history.hpp')],['optimizationHistory.csv at every evaluation'],None)
p('P03','Feasibility verdicts',
 'An evaluated design is recorded as feasible exactly when every constraint is strictly satisfied by the value evaluated at it. An initial sample of a constrained problem is feasible exactly when it lies in the box and every constraint has a recorded value at that sample which strictly satisfies it; a sample without a recorded value for some constraint is infeasible. An improvement or a reported optimum is never credited to an infeasible design while a feasible one exists.',
 ['inputs','histories','configurations'],'all vectors of constraint values (below, equal to, above each threshold), both inequality directions, any number of constraints, initial data with missing or shuffled constraint rows or samples outside the box',
 'The tests use a single constraint whose threshold is never hit exactly and complete initial data.',
 [O+'optimization.cpp',O+'optimization_constraint_functions.cpp',F+'constraint_functions.cpp'],
 [('checkConstraintFeasibility / checkFeasibility',O+'optimization_constraint_functions.cpp'),('setOptimizationHistoryConstraintsData, setOptimizationHistoryDataFeasibilityValues',O+'optimization.cpp')],
 [],['optimizationHistory.csv column Feasibility'],None)
p('P04','Reported global optimum is the best recorded design',
 'At the start of the optimization and after every iteration the reported optimum (XML file and in-memory incumbent) is the first row of the history with the lowest objective among the feasible rows; if no row is feasible it is the row with the lowest objective and is marked infeasible. The reported id, objective, parameters, constraint values and feasibility flag are those of that row.',
 ['histories','inputs','configurations'],'all sequences of (objective, feasibility) outcomes including ties, none feasible, negative and huge values',
 'Stable tests only check that the XML file is non-empty.',
 [O+'globalOptimalDesign.cpp',O+'optimization.cpp'],
 [('findBestDesignIndex, extractDesignData, generateXmlString',O+'globalOptimalDesign.cpp'),('findTheGlobalOptimalDesign',O+'optimization.cpp')],
 [('globalOptimalDesign','incumbent',O+'INCLUDE/optimization.hpp')],['globalOptimalDesign.xml at every evaluation'],None)
p('P05','Improvement accounting',
 'The improvement recorded for an evaluated design is zero if it is infeasible or not better than the reference, and otherwise the reference value minus its objective. The reference is the best feasible objective among the initial samples; if there is none it becomes the objective of the first feasible design found, which itself is recorded with a tiny positive improvement; it never changes otherwise.',
 ['histories','inputs'],'all sequences of objective values and feasibility verdicts, with and without a feasible initial sample',
 'Tests check single calls with hand-set reference values, not the reference over a history.',
 [O+'optimization.cpp',O+'optimization_history.cpp'],
 [('calculateImprovementValue',O+'optimization.cpp'),('calculateInitialImprovementValue',O+'optimization_history.cpp')],
 [('bestFeasibleInitialValue','reference value',O+'INCLUDE/optimization.hpp')],['optimizationHistory.csv column Improvement'],None)
p('P06','Trust-region and exploration state machine',
 'The next candidate is searched in a box centred at the incumbent with half-width L/dimension in normalized coordinates, clipped to the design space. L starts at 0.8, doubles after three consecutive iterations that improve on the incumbent, halves after fifteen consecutive iterations that do not, each time restarting the count, and always stays in [2^-8, 1]; the exploration factor always stays in [1,100] and its multiplier returns to one exactly after an improvement of more than a tenth of the largest improvement seen, otherwise growing by one percent per iteration.',
 ['histories','configurations'],'all sequences of success/failure outcomes and dimensions',
 'No test drives more than a handful of iterations or looks at the search window.',
 [O+'efficient_global_optimization.cpp',O+'optimization.cpp'],
 [('success/failure counters and trLength update',O+'efficient_global_optimization.cpp'),('defineTrustRegion, adjustSigmaFactor, initializeOptimizerSettings',O+'optimization.cpp')],
 [('trLength, trSuccessCounter, trFailureCounter, sigmaFactor, sigmaMultiplier','search control',O+'INCLUDE/optimization.hpp')],['hooks'],'trust-region state after each iteration and the search window')
p('P07','Every evaluated design is admissible',
 'Every design handed to the objective or a constraint lies inside the box constraints in every coordinate, and every coordinate declared discrete equals lower bound + k * increment for an integer k with value not above the upper bound, namely an admissible value nearest to the proposed one (the last grid point included). The design recorded is the design that was evaluated.',
 ['inputs','configurations','schedules'],'all boxes (degenerate widths, large offsets, negative), increments that do or do not divide the width, any thread count',
 'Only one test uses a discrete parameter and never checks membership; boundary proposals are rare in short runs.',
 [O+'optimization.cpp','src/LinearAlgebra/vector.cpp','src/Design/design_bo.cpp'],
 [('roundDiscreteParameters, generateDiscreteValues, findClosestDiscreteValue',O+'optimization.cpp'),('denormalizeVector','src/LinearAlgebra/vector.cpp'),('gradientUpdateDesignVector','src/Design/design_bo.cpp')],
 [],['arguments of the user functions','design vector file'],None)
p('P08','Inner search returns its best candidate under every thread schedule',
 'The design proposed by the two-phase parallel search is the candidate with the largest acquisition value among all candidates examined, for every number of threads and every interleaving, each phase examining the configured number of candidates inside the search window; the subsequent local ascent never returns a design with a lower acquisition value or outside the window.',
 ['schedules','configurations'],'all interleavings of any number of threads over the candidate lists',
 'Tests run with one thread or never look at the candidates that lost.',
 [O+'optimization.cpp'],
 [('searchCompleteDesignSpace, searchAroundGlobalOptima (omp critical)',O+'optimization.cpp'),('maximizeAcqusitionFunctionGradientBased',O+'optimization.cpp')],
 [('designWithMaxAcqusition','shared best candidate',O+'optimization.cpp')],['hooks'],'candidate values and search results')
p('P09','External evaluations are exact and fail-stop',
 'For each evaluation with an executable the design vector file holds exactly the parameters of that design before the executable runs, the executable runs exactly once, and the value used is the one it wrote during this very run. If the executable cannot be started, exits non-zero or is killed, or leaves no readable number (missing, empty, garbage or NaN output, for the objective or any constraint), the run stops with a failure status and that design is recorded nowhere.',
 ['fault_sequences','inputs','configurations'],'every position of a fault in the sequence of evaluations, every fault kind, objective or any constraint',
 'The tests use executables that always succeed.',
 [F+'objective_function.cpp',F+'constraint_functions.cpp',O+'optimization.cpp','src/Rodeo.cpp',D+'driver_xml.cpp'],
 [('evaluateDesign, evaluateObjectiveFunction, readOutput, writeDesignVariablesToFile',F+'objective_function.cpp'),('abortIfCurrentDesignHasANaN',O+'optimization.cpp')],
 [],['stub executables that log what they read; exit status; files'],None)
p('P10','Training data files are append-only and complete',
 'After each iteration the objective training-data file holds its previous rows unchanged plus exactly one row with the evaluated design and objective value, and each constraint training-data file likewise with the value of that constraint, unless the new sample coincides with one already stored; all rows parse and have the same number of columns. The samples in memory from which the surrogate predicts are exactly the rows of that file, in the same order.',
 ['histories','inputs','configurations'],'all sequences of evaluated designs and values including coinciding samples',
 'Tests never read the training data back during a run.',
 [S+'surrogate_model_data.cpp',S+'kriging_training.cpp',F+'objective_function.cpp',F+'constraint_functions.cpp','src/LinearAlgebra/vector.cpp'],
 [('addNewSampleToData, updateModelWithNewData',S+'kriging_training.cpp'),('appendToCSV','src/LinearAlgebra/vector.cpp'),('addConstraintValuesToData',O+'optimization_constraint_functions.cpp')],
 [('rawData','samples in memory',S+'INCLUDE/surrogate_model_data.hpp')],['training data files at every evaluation'],None)
p('P11','A killed run can be continued without losing or inventing evaluations',
 'If the process dies at any point of a run, the training-data files hold exactly the iterations recorded before that point, every row complete, with constraint files at most one row behind the objective file. A new run on those files starts from exactly these samples in order, treats a sample without recorded constraint value as infeasible, and continues with its own full budget.',
 ['crash_points','histories'],'every system call that touches a file and every step of an iteration as crash point, several crashes in a row',
 'No test kills a run.',
 [O+'efficient_global_optimization.cpp',O+'optimization.cpp',S+'surrogate_model_data.cpp','src/LinearAlgebra/vector.cpp'],
 [('order evaluate -> append objective -> append constraints -> history',O+'efficient_global_optimization.cpp'),('setOptimizationHistoryConstraintsData',O+'optimization.cpp')],
 [],['files after a kill; history of the restarted run'],None)
p('P12','Configuration file: accepted settings take effect, bad ones are rejected',
 'Every setting of the XML configuration file (problem name and dimension, budget, inner iterations, threads, parameters with type/bounds/increment in order, objective and each constraint with its own files, executable, definition and training iterations) reaches the run exactly as written, independent of the order of the other elements. A file with a missing mandatory element, an unknown problem or parameter type, inconsistent bounds, a parameter count different from the dimension or an unterminated block is rejected with a failure status before anything is evaluated.',
 ['configurations','inputs'],'all combinations of present/absent/valid/invalid elements up to the bounds of the specification',
 'The stable tests use three fixed valid files.',
 [D+'driver_xml.cpp',D+'xml_functions.cpp',D+'configkey.cpp','src/Rodeo.cpp'],
 [('readConfigurationFile, readConstraintFunctionsFromXML, runOptimization',D+'driver_xml.cpp'),('getContentFromXml and friends',D+'xml_functions.cpp')],
 [],['exit status','evaluations, files and history header of the run'],None)
p('P13','C++ API: last valid setting wins and a run needs a complete set-up',
 'Through the API every setter either rejects its argument with an exception and changes nothing, or takes effect and replaces the previous value (constraints accumulate in order); run() throws without evaluating anything while budget, dimension, box constraints or objective function is missing. With a complete set-up run() uses exactly the settings last accepted.',
 ['histories','configurations'],'all sequences of setter calls up to the bounds of the specification, including rejected and repeated calls',
 'The stable API test makes one fixed sequence of valid calls.',
 ['src/API/cppAPI.cpp','src/API/rodeo_api.cpp'],
 [('setters and checkOptimizationSettings','src/API/cppAPI.cpp')],
 [],['exceptions; evaluations and files of run()'],None)
p('P14','Evolutionary optimizer: elitist, bounded, budgeted population',
 'In every generation the population has exactly the configured size plus births minus deaths, every individual lies within the parameter bounds and carries a unique id and its true objective value, and the best individual found so far is never removed or worsened; the recorded minimum and maximum are those of the current population. The optimum returned after the configured number of generations is the best individual ever evaluated.',
 ['histories','inputs','configurations'],'all sequences of objective values (ties, negative values), population sizes, birth/death numbers and generations',
 'Unit tests check monotone improvement on one smooth function with positive values.',
 [I+'ea_optimizer.cpp',I+'ea_population.cpp',I+'ea_individual.cpp',I+'general_purpose_optimizer.cpp'],
 [('initializePopulation, generateAgentForNewGeneration, addNewIndividuals, removeIndividuals',I+'ea_optimizer.cpp'),('updatePopulationProperties, removeIndividual',I+'ea_population.cpp')],
 [('population, ids, min/max','population state',I+'INCLUDE/ea_population.hpp')],['public getters; optimum'],None)
p('P15','Surrogate training selects the best trained parameters and keeps the data',
 'Training a surrogate on several threads ends with the hyperparameters of the thread that reached the best training objective, for every completion order; a candidate whose correlation matrix cannot be factorized is never selected over one that can. Training and re-initialization neither lose, duplicate nor reorder samples.',
 ['schedules','inputs'],'all completion orders of the training threads, all candidate values including failed factorizations',
 'Training tests run one thread and only test error bounds on a smooth function.',
 [S+'kriging_training.cpp'],
 [('KrigingModel::train (omp critical)',S+'kriging_training.cpp'),('calculateLikelihoodFunctionForGivenHyperparameters, calculateValidationErrorForGivenHyperparameters',S+'kriging_training.cpp')],
 [],['hooks; training data'],'objective value per training thread and the selected one')
p('P16','Sample data life cycle: read, normalize, append stay consistent',
 'After any sequence of reading and adding samples, each raw sample, its normalized input (each coordinate mapped linearly from its bounds to [0, 1/dimension]) and its output refer to the same sample at the same index, and no sample is lost, duplicated or reordered; operations called in the wrong order or with a wrong size are rejected and change nothing.',
 ['histories','inputs'],'all sequences of read / normalize / add operations with arbitrary samples',
 'Unit tests exercise one operation at a time on fixed files.',
 [S+'surrogate_model_data.cpp',S+'surrogate_model.cpp','src/LinearAlgebra/vector.cpp'],
 [('readData, normalize, addNewSampleToData, addNewRow',S+'surrogate_model_data.cpp')],
 [],['public getters'],None)
p('P17','Design of experiments covers the box and is evaluated and stored exactly once',
 'With n requested samples the design of experiments evaluates the objective and each constraint exactly once at the same n designs inside the box, in the same order, and stores exactly these rows in the training-data files, replacing previous content. With Latin hypercube sampling every parameter has exactly one of the n samples in each of n equal strata of its range.',
 ['inputs','configurations','fault_sequences'],'all n, dimensions, boxes, strategies, random draws, and failures of a user function at any sample',
 'The stable test uses n=50 once and never checks stratification or the files.',
 ['src/API/cppAPI.cpp','src/LinearAlgebra/matrix.cpp'],
 [('performDoE, performDoEForConstraints','src/API/cppAPI.cpp'),('fillRandomLHS, fillRandom','src/LinearAlgebra/matrix.cpp')],
 [],['user function calls; training data files'],None)
p('P18','Constraint definitions are read as written',
 'A definition "name op number" yields exactly that name, direction and threshold, whatever the white space around them and whatever valid number format; a definition without a name, without or with more than one inequality sign, or without a complete number is rejected and leaves the previous definition in force. Definitions given through the configuration file and through the API mean the same.',
 ['inputs'],'all strings over the token classes of the specification up to its bound',
 'Tests parse a handful of well-formed strings.',
 [F+'constraint_functions.cpp','src/API/cppAPI.cpp'],
 [('ConstraintDefinition::setDefinition',F+'constraint_functions.cpp'),('parseExpression','src/API/cppAPI.cpp')],
 [],['public getters; exceptions'],None)
p('P19','Surrogates are retrained on schedule with all recorded samples',
 'Surrogates of the objective and of all modelled constraints are trained in the first iteration and then every time the configured number of iterations has passed, and at no other time; at every proposal each surrogate contains every sample recorded so far for its function. Training of one surrogate does not change another.',
 ['histories','configurations'],'all retraining intervals including one, budgets and numbers of constraints',
 'No test sets the retraining interval.',
 [O+'efficient_global_optimization.cpp',O+'optimization.cpp',S+'kriging_training.cpp'],
 [('outerIterationNumber % howOftenTrainModels',O+'efficient_global_optimization.cpp'),('initializeSurrogates, trainSurrogates',O+'optimization.cpp')],
 [],['hooks'],'training events and sample counts')
p('P20','Matrix and vector bookkeeping operations and CSV round trips',
 'Row and column operations on data matrices (add, delete, swap, concatenate, submatrix, row search, shuffle, shrink/expand) change exactly the addressed rows or columns and keep all others in order; searches return the first matching index or -1 and the index of the minimum is a minimum. Saving to CSV and reading back yields the same matrix shape and values to the printed precision, and malformed files are rejected.',
 ['histories','inputs'],'all sequences of operations on matrices up to the bound of the specification',
 'Unit tests check each operation once on a small fixed matrix.',
 ['src/LinearAlgebra/matrix.cpp','src/LinearAlgebra/vector.cpp'],
 [('addRow, deleteRow, swapRows, submat, findRowIndex, readFromCSV, saveAsCSV','src/LinearAlgebra/matrix.cpp')],
 [],['public operations'],None)
p('P21','Acquisition and surrogate values are numerically correct',
 'The surrogate interpolates its samples, its predicted variance is non-negative and vanishes at samples, and the acquisition value equals the expected improvement below the best feasible value under the predicted normal distribution, multiplied by the probability of meeting each constraint.',
 ['inputs'],'all data sets, hyperparameters and query points',
 'Tests compare a few points on one function.',
 [S+'kriging_training.cpp',F+'objective_function.cpp',O+'optimization_constraint_functions.cpp'],
 [('interpolateWithVariance',S+'kriging_training.cpp'),('calculateExpectedImprovement',F+'objective_function.cpp')],[],[],None)
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
