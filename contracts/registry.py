from contracts import prop

B = None       # the explanation is written from the contracts (see contracts.__init__.explain)
CT = [("slim", "Sizes", [("slim", "Log2")]), ("slim", "Evaluate", [("cover", "Cover"), ("slim", "Sizes"), ("slim", "Prune")]), ("slim", "Prune", [("cover", "Cover"), ("slim", "Sizes")]),
      ("slim", "UpdateUsages", []), ("slim", "UpdateCandidate", [("slim", "Evaluate")]), ("slim", "Candidates", [("slim", "Log2")]),
      ("slim", "Prefit", [("vertical", "ToVertical"), ("slim", "Log2")]), ("slim", "PrefitItems", [("vertical", "ToVertical"), ("slim", "Log2")]),
      ("slim", "Fit", [("slim", "Prefit"), ("slim", "Evaluate"), ("slim", "UpdateUsages"), ("slim", "Candidates")])]
COVER, VERTICAL = [("cover", "Cover", [])], [("vertical", "ToVertical", [])]
ORDER = [("slimviews", "Support", [("slimviews", "Support")]), ("slimviews", "CoverOrder", [("slimviews", "Support")])]
prop("P01", "other", B, COVER + VERTICAL + CT + ORDER)
prop("P02", "other", B, COVER + VERTICAL + CT + ORDER)
prop("P03", "other", B, COVER + VERTICAL + [("classifier", "Decision", [])])
prop("P05", "other", B, COVER + VERTICAL)
prop("P04", "other", B, COVER + VERTICAL + CT + [("classifier", "Fit", []), ("classifier", "Predict", [])])
FIT = [("vertical", "FitInt", []), ("vertical", "FitFloat", [])]
prop("P06", "other", B, FIT + [("lcm", "Inner", [("lcm", "Inner")]), ("lcm", "ExploreRoot", [])])
prop("P07", "other", B, FIT + [("lcm", "InnerMax", [("lcm", "InnerMax")]), ("families", "FilterMaximal", [])])
prop("P08", "other", B, [("families", "FilterMaximal", []), ("families", "FilterMinimal", []),
                         ("families", "BorderDiff", [("families", "FilterMinimal")]),
                         ("families", "MBDLLBorder_", [("families", "FilterMaximal"), ("families", "BorderDiff")])])
prop("P18", "other", B, [("validate", c, []) for c in "MinSuppInt MinSuppFloat MinSuppOther GrowthRate SeedInt SeedGenerator SeedOther".split()]
     + [("validate", "GetParams", [("validate", "ParamNames")]), ("validate", "SetParams", [("validate", "GetParams")])])
prop("P10", "other", B, [("timescale", "Nano", []), ("timescale", "Upper", []),
                         ("timescale", "AutoScale", [("timescale", "Nano"), ("timescale", "Upper")])])
CYC = [("cyclecost", c, []) for c in "Period LengthE ShiftCorrections CostOne CostTriple LengthCycleGiven".split()]
T_ = "tree"
TREE = [(T_, c, [(T_, c)]) for c in "NbLeaves Width NbOccs CardO Depth Alphabet CyclePs CycleRs RVals".split()]
TREE += [(T_, c, [(T_, "Depth"), (T_, "Width")]) for c in "IsSimple IsNested IsConcat".split()] + [(T_, "NodeP", []), (T_, "NodeR", [])]
COVSEQ = [(T_, "OccsStar", [(T_, "OccsStar")]), (T_, "EDict", []), (T_, "CCorr", []),
          (T_, "CovSeq", [(T_, "OccsStar"), (T_, "EDict"), (T_, "CCorr")])]
prop("P12", "other", B, [("cyclecost", "ShiftCorrections", [])] + TREE + COVSEQ + [
    (T_, "TimesNidsRefs", [(T_, "TimesNidsRefs")]), (T_, "Occs", [(T_, "CCorr")]), (T_, "OccsList", [(T_, "CCorr"), (T_, "EDict")])])
L = "collection"
OCC = [(L, "OccLists", []), (L, "OccListsFirst", []), (L, "Uncovered", [(L, "OccLists")]), (L, "UncoveredFirst", [(L, "OccLists")])]
SEQ = [("sequence", "Frequencies", []), ("sequence", "Sequence", [("sequence", "Frequencies")])]
prop("P13", "other", B, [("cyclecost", "CostOne", []), ("cyclecost", "LengthResidual", [("cyclecost", "CostOne")])] + OCC + SEQ
     + [(L, "NbUncovered", [(L, "Uncovered")]), (L, "SeqLength", [("cyclecost", "CostOne")])])
prop("P14", "other", B, CYC + [("cyclecost", "LengthResidual", [("cyclecost", "CostOne")]),
                               ("cyclecost", "LengthCycle", [("cyclecost", "Period"), ("cyclecost", "LengthE")]),
                               (L, "CollLength", [(L, "NbUncovered"), ("cyclecost", "CostOne")]), ("sequence", "Frequencies", []),
                               (T_, "EventLength", [(T_, "EventLength")]), (T_, "CardO", [(T_, "CardO")])])
prop("P17", "other", B, [("mdlp", "CutPoint", [("mdlp", "Entropy")]), ("mdlp", "Evaluate", [("mdlp", "Entropy")]),
                         ("mdlp", "Fit", [("mdlp", "CutInFit"), ("mdlp", "EvaluateInFit")])])
prop("P22", "other", B, [("cliques", "CliquesRec", [("cliques", "CliquesRec")]), ("cliques", "CliquesTop", [("cliques", "CliquesRec")])])
G = "graphcodes"
prop("P15", "other", B, [(G, "Log2Of", []), (G, "Prequential", [(G, "Log2Of")]), (G, "Binomial", [(G, "Binomial")]), (G, "UniversalInt", []),
                         (G, "UniversalInt0", [(G, "UniversalInt")]), (G, "VertexSingleton", [(G, "UniversalInt0"), (G, "Binomial")]),
                         (G, "EdgeSingleton", [(G, "UniversalInt0"), (G, "Binomial")]), (G, "Singleton", [(G, "VertexSingleton"), (G, "EdgeSingleton")]),
                         (G, "Encode", [(G, "CountVertices"), (G, "CountEdges"), (G, "UniversalInt0"), (G, "Binomial")]), (G, "PortCodes", [(G, "Log2Of")])])
S = "graphsearch"
TABLE = [(S, c) for c in "AddRow RemoveRow CoverTable TotalLength TableRows".split()]
STEPS = TABLE + [(S, c) for c in "OldUsage PruningCandidates Pruning End".split()]
prop("P16", "other", B, [(S, "OldUsage", TABLE), (S, "PruningCandidates", TABLE), (S, "Pruning", TABLE + [(S, "OldUsage"), (S, "PruningCandidates")]),
                         (S, "End", TABLE + [(S, "Patterns")]), (S, "Search", STEPS), (S, "SearchNoTimeout", STEPS), (S, "Init", TABLE),
                         (S, "FitGraph", TABLE + [(S, "Init"), (S, "Search")]), (S, "FitNoTimeout", TABLE + [(S, "Init"), (S, "Search")])])
K = "callbacks"
prop("P19", "other", B, [(K, "Post", []), (K, "PostTuple", []), (K, "Check", []), (K, "Init", [(K, "Check")]), (K, "Frozen", []), (K, "Attach", [])])
D_ = "datasets"
prop("P20", "other", B, [(D_, "ReadDat", []), (D_, "ReadDatInt", []), (D_, "FetchFile", [(D_, "ReadDat")]), (D_, "FetchFileInt", [(D_, "ReadDatInt")]),
                         (D_, "FetchAny", [(D_, "ReadDatInt")]), (D_, "Describe", [])])
prop("P21", "other", B, [(D_, "MakeTransactions", []), (D_, "MakeClassification", [(D_, "MakeTransactions")]),
                         (D_, "MakeClassificationDefault", [(D_, "MakeTransactions")])])
prop("P09", "other", B, OCC + COVSEQ + [("sequence", "Sequence", [("sequence", "Frequencies")])])
prop("P11", "other", B, [("exchange", "Export", []), ("exchange", "Import", [])])
