/// the activities known at this commit and the kind of argument each one takes
pub const KNOWN: &[(&str, &str)] = &[
    ("AAManager", "Symbol"),
    ("ADCEPass", "Symbol"),
    ("AggressiveInstCombinePass", "Symbol"),
    ("AlignmentFromAssumptionsPass", "Symbol"),
    ("Annotation2MetadataPass", "FilePathOrModule"),
    ("AnnotationRemarksPass", "Symbol"),
    ("AssignmentTrackingPass", "FilePathOrModule"),
    ("Backend", "Nothing"),
    ("BDCEPass", "Symbol"),
    ("BlockFrequencyAnalysis", "Symbol"),
    ("BranchProbabilityAnalysis", "Symbol"),
    ("CalledValuePropagationPass", "FilePathOrModule"),
    ("CallGraphAnalysis", "FilePathOrModule"),
    ("CGProfilePass", "FilePathOrModule"),
    ("CGSCCToFunctionPassAdaptor", "SymbolOpt"),
    ("CodeGen Function", "CppEntity"),
    ("CodeGenPasses", "Nothing"),
    ("ConstantMergePass", "FilePathOrModule"),
    ("ConstraintEliminationPass", "Symbol"),
    ("CoroCleanupPass", "Symbol"),
    ("CoroEarlyPass", "Symbol"),
    ("CoroElidePass", "Symbol"),
    ("CoroSplitPass", "Nothing"),
    ("CorrelatedValuePropagationPass", "Symbol"),
    ("DeadArgumentEliminationPass", "FilePathOrModule"),
    ("DebugConstGlobalVariable", "CppEntity"),
    ("DebugFunction", "CppEntity"),
    ("DebugGlobalVariable", "CppEntity"),
    ("DebugType", "CppEntity"),
    ("DevirtSCCRepeatedPass", "SymbolOpt"),
    ("DivRemPairsPass", "Symbol"),
    ("DominatorTreeAnalysis", "Symbol"),
    ("DSEPass", "Symbol"),
    ("EarlyCSEPass", "Symbol"),
    ("EliminateAvailableExternallyPass", "FilePathOrModule"),
    ("ExecuteCompiler", "Nothing"),
    ("Float2IntPass", "Symbol"),
    ("ForceFunctionAttrsPass", "FilePathOrModule"),
    ("Frontend", "Nothing"),
    ("FunctionToLoopPassAdaptor", "Symbol"),
    ("GlobalDCEPass", "FilePathOrModule"),
    ("GlobalOptPass", "FilePathOrModule"),
    ("GlobalsAA", "FilePathOrModule"),
    ("GVNPass", "Symbol"),
    ("IndVarSimplifyPass", "UnnamedLoop"),
    ("InferFunctionAttrsPass", "FilePathOrModule"),
    ("InjectTLIMappings", "Symbol"),
    ("InlinerPass", "SymbolOpt"),
    ("InnerAnalysisManagerProxy<CGSCCAnalysisManager, Module>", "FilePathOrModule"),
    ("InstantiateClass", "CppEntity"),
    ("InstantiateFunction", "CppEntity"),
    ("InstCombinePass", "Symbol"),
    ("InstSimplifyPass", "Symbol"),
    ("InvalidateAnalysisPass<llvm::AAManager>", "Symbol"),
    ("InvalidateAnalysisPass<llvm::ShouldNotRunFunctionPassesAnalysis>", "Symbol"),
    ("IPSCCPPass", "FilePathOrModule"),
    ("JumpThreadingPass", "Symbol"),
    ("LazyCallGraphAnalysis", "FilePathOrModule"),
    ("LCSSAPass", "Symbol"),
    ("LibCallsShrinkWrapPass", "Symbol"),
    ("LICMPass", "UnnamedLoopOpt"),
    ("LoopAnalysis", "Symbol"),
    ("LoopDeletionPass", "UnnamedLoop"),
    ("LoopDistributePass", "Symbol"),
    ("LoopFullUnrollPass", "UnnamedLoop"),
    ("LoopIdiomRecognizePass", "UnnamedLoop"),
    ("LoopInstSimplifyPass", "UnnamedLoop"),
    ("LoopLoadEliminationPass", "Symbol"),
    ("LoopRotatePass", "UnnamedLoop"),
    ("LoopSimplifyCFGPass", "UnnamedLoop"),
    ("LoopSimplifyPass", "Symbol"),
    ("LoopSinkPass", "Symbol"),
    ("LoopUnrollPass", "Symbol"),
    ("LoopVectorizePass", "Symbol"),
    ("LowerConstantIntrinsicsPass", "Symbol"),
    ("LowerExpectIntrinsicPass", "Symbol"),
    ("MemCpyOptPass", "Symbol"),
    ("MemorySSAAnalysis", "Symbol"),
    ("MergedLoadStoreMotionPass", "Symbol"),
    ("ModuleInlinerWrapperPass", "FilePathOrModule"),
    ("ModuleToFunctionPassAdaptor", "FilePathOrModule"),
    ("ModuleToPostOrderCGSCCPassAdaptor", "FilePathOrModule"),
    ("OpenMPOptCGSCCPass", "Nothing"),
    ("OpenMPOptPass", "FilePathOrModule"),
    ("OptFunction", "Symbol"),
    ("Optimizer", "Nothing"),
    ("OptModule", "FilePathOrModule"),
    ("ParseClass", "CppEntity"),
    ("ParseTemplate", "CppEntity"),
    ("PassManager<llvm::Function>", "SymbolOpt"),
    ("PassManager<llvm::Loop, llvm::LoopAnalysisManager, llvm::LoopStandardAnalysisResults &, llvm::LPMUpdater &>", "Nothing"),
    ("PassManager<Function>", "SymbolOpt"),
    ("PassManager<LazyCallGraph::SCC, CGSCCAnalysisManager, LazyCallGraph &, CGSCCUpdateResult &>", "Symbol"),
    ("PassManager<Loop, LoopAnalysisManager, LoopStandardAnalysisResults &, LPMUpdater &>", "UnnamedLoop"),
    ("PerformPendingInstantiations", "Nothing"),
    ("PerFunctionPasses", "Nothing"),
    ("PerModulePasses", "Nothing"),
    ("PostDominatorTreeAnalysis", "Symbol"),
    ("PostOrderFunctionAttrsPass", "SymbolOpt"),
    ("PromotePass", "Symbol"),
    ("ReassociatePass", "Symbol"),
    ("RecomputeGlobalsAAPass", "FilePathOrModule"),
    ("RelLookupTableConverterPass", "FilePathOrModule"),
    ("RequireAnalysisPass<llvm::GlobalsAA, llvm::Module>", "FilePathOrModule"),
    ("RequireAnalysisPass<llvm::OptimizationRemarkEmitterAnalysis, llvm::Function>", "Symbol"),
    ("RequireAnalysisPass<llvm::ProfileSummaryAnalysis, llvm::Module>", "FilePathOrModule"),
    ("RequireAnalysisPass<llvm::GlobalsAA, llvm::Module, llvm::AnalysisManager<Module>>", "FilePathOrModule"),
    ("ReversePostOrderFunctionAttrsPass", "FilePathOrModule"),
    ("RunLoopPass", "String"),
    ("RunPass", "String"),
    ("ScalarEvolutionAnalysis", "Symbol"),
    ("SCCPPass", "Symbol"),
    ("SimpleLoopUnswitchPass", "UnnamedLoop"),
    ("SimplifyCFGPass", "Symbol"),
    ("SLPVectorizerPass", "Symbol"),
    ("Source", "FilePathOrModule"),
    ("SpeculativeExecutionPass", "Symbol"),
    ("SROAPass", "Symbol"),
    ("TailCallElimPass", "Symbol"),
    ("TargetIRAnalysis", "Symbol"),
    ("VectorCombinePass", "Symbol"),
    ("WarnMissedTransformationsPass", "Symbol"),
];
