"""Single source of properties.jsonl, MANIFEST.json and config.json (written by tools/gen.py)."""

PROPS = []


def P(id, title, statement, over, text, why, files, mechanism, observe, rule, oracle, technique=None, note=None, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, observe=observe, rule=rule, oracle=oracle, technique=technique, note=note, **kw))


P("P01", "Inference agrees with the fuzzy logic model of the configuration",
  "For every complete engine and every sequence of input rows, processing yields for each output variable the value that the configured "
  "model defines: antecedent degrees by the conjunction, disjunction and hedges, activation by the block's method, implication, aggregation, "
  "defuzzification, then default value and range locking. Rule activation degrees and triggered flags agree with the same model, for Mamdani, "
  "Larsen, Takagi-Sugeno, Tsukamoto and hybrid engines, and the same engine built in code or imported from text gives the same values.",
  ["inputs", "programs", "histories"],
  "All engines over the library's terms, norms, hedges, activation methods and defuzzifiers, and all sequences of input rows including values "
  "out of range and NaN.",
  "Tests compare a few example engines with recorded datasets; combinations of terms, norms, activation methods and histories are unbounded.",
  ["src/Engine.cpp", "src/rule/RuleBlock.cpp", "src/rule/Rule.cpp", "src/rule/Antecedent.cpp", "src/rule/Consequent.cpp",
   "src/variable/OutputVariable.cpp", "src/term/Aggregated.cpp"],
  [("processing order: clear fuzzy outputs, activate blocks, defuzzify outputs", "src/Engine.cpp Engine::process"),
   ("implication and aggregation of activated terms", "src/term/Aggregated.cpp")],
  ["output values, rule activation degrees and triggered flags after each processing step"],
  "a rule fired and an output is finite in a step that was compared with the reference",
  "an independent interpreter of engine descriptions (harness/model.cpp) written from the documentation")

P("P02", "A rule's antecedent degree is the value of its logical expression",
  "The activation degree of a rule equals its weight times the value of its antecedent read as a logical expression: conjunction binds tighter "
  "than disjunction, operators of equal precedence group from the left, parentheses override, redundant parentheses change nothing and hedges "
  "apply from the innermost outwards. A proposition on an input variable takes the membership of its current value, one on an output variable "
  "takes the aggregated degree with which the term has been activated so far, and one on a disabled variable takes zero.",
  ["inputs", "programs"],
  "All antecedents of any nesting over any variables, hedges and norms, and all values of the variables.",
  "Tests load a handful of fixed expressions; nesting, hedging and operators combine without bound.",
  ["src/rule/Antecedent.cpp", "src/rule/Rule.cpp", "src/term/Function.cpp"],
  [("conversion to postfix with precedence", "src/term/Function.cpp Function::toPostfix"),
   ("expression tree and its evaluation", "src/rule/Antecedent.cpp Antecedent::load, Antecedent::activationDegree")],
  ["the degree returned by evaluating the rule's antecedent with given norms"],
  "the antecedent has at least two propositions or a hedge, and the degree is strictly between 0 and 1",
  "evaluation of the generated expression tree")

P("P03", "Rule texts are accepted exactly when well formed, and failed loads leave nothing",
  "Every well-formed rule text over known variables, terms and hedges is loaded, and its displayed text denotes the same rule when loaded again. "
  "A text with an unknown variable, hedge or term, a missing or misplaced keyword, operand, conclusion or weight, unbalanced parentheses or "
  "trailing words is rejected with the library's exception, never otherwise. A rule whose loading failed stays unloaded, contributes nothing, "
  "and loads normally once given a correct text.",
  ["inputs", "programs"],
  "All rule texts obtained from well-formed ones by edits that make them definitely malformed, and all well-formed ones.",
  "Tests reject about thirty fixed strings; the space of malformed texts and of well-formed ones is unbounded.",
  ["src/rule/Rule.cpp", "src/rule/Antecedent.cpp", "src/rule/Consequent.cpp"],
  [("finite state machines of the rule, antecedent and consequent", "src/rule/Rule.cpp Rule::load, src/rule/Antecedent.cpp, src/rule/Consequent.cpp")],
  ["acceptance, exceptions, loaded state, text of the rule, and activation after a failure"],
  "the text is a well-formed rule with a connective or a hedge, or a malformed one that shares a prefix with a well-formed one",
  "validity by construction of the generated text")

P("P04", "Every conclusion of a triggered rule is applied on its own",
  "Triggering a rule with a positive activation degree adds to each output variable concluded, in order, exactly one activation per conclusion: "
  "its term, the rule's implication, and the rule's activation degree modified only by that conclusion's hedges. Conclusions on disabled "
  "variables add nothing, nothing is added when the rule is disabled or its degree is zero, and the rule reports having been triggered exactly "
  "when it is enabled and its degree is positive.",
  ["inputs", "programs"],
  "All rules with any number of conclusions and hedges, any degrees and enabled states.",
  "Tests use single conclusions without hedges, so interactions between conclusions are never sampled.",
  ["src/rule/Consequent.cpp", "src/rule/Rule.cpp", "src/variable/OutputVariable.cpp"],
  [("propagation of the activation degree", "src/rule/Consequent.cpp Consequent::modify"),
   ("trigger", "src/rule/Rule.cpp Rule::trigger")],
  ["the activated terms of each output variable's fuzzy output"],
  "a conclusion has hedges or there are at least two conclusions, and the rule was triggered",
  "the list of activations computed from the description of the rule")

P("P05", "Activation methods fire exactly the rules they document",
  "General fires every rule in order; First and Last fire at most the given number of rules whose degree is positive and reaches the threshold, in "
  "order and in reverse; Highest and Lowest fire the given number of rules with the greatest and smallest positive degrees; Proportional fires "
  "rules with degrees normalised to add up to one; Threshold fires the rules that satisfy its comparison. Each method fires a rule at most once "
  "per activation, with its own activation degree, and rules that are not fired contribute nothing.",
  ["inputs", "configurations"],
  "All rule blocks, activation degrees (with ties), numbers of rules, thresholds and comparisons.",
  "Tests check one or two tables per method.",
  ["src/activation/First.cpp", "src/activation/Last.cpp", "src/activation/Highest.cpp", "src/activation/Lowest.cpp",
   "src/activation/Proportional.cpp", "src/activation/Threshold.cpp", "src/activation/General.cpp", "src/rule/RuleBlock.cpp"],
  [("selection of rules", "src/activation/*.cpp activate(RuleBlock*)")],
  ["which rules were triggered, with which degrees, and the activated terms in order"],
  "at least one rule fired and at least one with positive degree did not, or degrees were normalised over at least two rules",
  "a direct transcription of the documented selection over the degrees, and validity predicates for ties")

P("P06", "Output values follow the documented default, lock and previous-value rules",
  "After each processing step an enabled output variable holds the defuzzified value if it is a number, otherwise its last value when it locks "
  "previous values, otherwise its default value, restricted to its range when it locks the range. Its previous value is the value it held before "
  "the step, a disabled output variable keeps its values, and restarting or clearing a variable forgets them.",
  ["histories", "inputs"],
  "All histories of processing steps, changes of flags and defaults, enabling and disabling, clearing and restarting.",
  "Tests run one fixed sequence; histories are unbounded.",
  ["src/variable/OutputVariable.cpp", "src/variable/Variable.cpp", "src/Engine.cpp"],
  [("fallback order of the value", "src/variable/OutputVariable.cpp OutputVariable::defuzzify"),
   ("range locking", "src/variable/Variable.cpp Variable::setValue")],
  ["value and previous value of the output variables after each operation"],
  "the history has a step without activation after one with a value",
  "a state machine of value and previous value driven by the same history (stateful model-based testing)")

P("P07", "Integral defuzzifiers return the point they are named for",
  "For every fuzzy set, range and resolution, the centroid, the bisector and the smallest, largest and mean of maxima agree with the midpoint-rule "
  "definition over that many samples. Results lie inside the range whenever they are numbers, and an empty, all-zero or unbounded case gives NaN.",
  ["inputs", "configurations"],
  "All terms and aggregated fuzzy sets, ranges and resolutions.",
  "Tests check a few triangles at one resolution.",
  ["src/defuzzifier/Centroid.cpp", "src/defuzzifier/Bisector.cpp", "src/defuzzifier/SmallestOfMaximum.cpp",
   "src/defuzzifier/LargestOfMaximum.cpp", "src/defuzzifier/MeanOfMaximum.cpp", "src/defuzzifier/IntegralDefuzzifier.cpp"],
  [("midpoint integration", "src/defuzzifier/*.cpp defuzzify(const Term*, minimum, maximum)")],
  ["the crisp value returned for a term over a range"],
  "the fuzzy set is not constant and the result is a number",
  "a direct transcription of the definitions over sampled memberships, and metamorphic relations (translation, scaling of membership, mirror image)")

P("P08", "Weighted defuzzifiers average or add the activated terms",
  "The weighted average and the weighted sum combine, once per distinct term, the term's value and its aggregated activation degree: the membership "
  "function's value for Takagi-Sugeno, the inverse for Tsukamoto, as declared or inferred from the terms. The order of activations does not matter, "
  "an average lies between the smallest and greatest term values, an empty fuzzy set gives NaN, and terms whose type cannot be inferred are rejected.",
  ["inputs", "configurations"],
  "All fuzzy outputs over constants, linear, function and monotonic terms, repeated activations, aggregations and degrees.",
  "Tests check a few fixed sets of constants.",
  ["src/defuzzifier/WeightedAverage.cpp", "src/defuzzifier/WeightedSum.cpp", "src/defuzzifier/WeightedDefuzzifier.cpp",
   "src/term/Aggregated.cpp"],
  [("grouping of activations and weighted combination", "src/defuzzifier/WeightedAverage.cpp, src/defuzzifier/WeightedSum.cpp, src/term/Aggregated.cpp Aggregated::groupedTerms"),
   ("inference of the type", "src/defuzzifier/WeightedDefuzzifier.cpp inferType")],
  ["the crisp value returned for a fuzzy output"],
  "at least two activations with positive degrees",
  "direct formula over grouped activations, and metamorphic relations (permutation, bounds)")

P("P09", "Terms compute their documented membership functions",
  "Each term gives for every number the value of its documented formula with its parameters, scaled by its height, and NaN for NaN. Membership of "
  "the bounded shapes stays between zero and the height, the special points of each shape have their defined values, and evaluating never changes "
  "the term.",
  ["inputs", "configurations"],
  "All valid parameters and heights of all terms, and all numbers including the edges of the pieces, infinities and NaN.",
  "Tests evaluate each term at about ten points for one parameterisation.",
  ["src/term/Triangle.cpp", "src/term/Trapezoid.cpp", "src/term/Ramp.cpp", "src/term/Rectangle.cpp", "src/term/Gaussian.cpp",
   "src/term/GaussianProduct.cpp", "src/term/Bell.cpp", "src/term/Binary.cpp", "src/term/Concave.cpp", "src/term/Cosine.cpp",
   "src/term/Discrete.cpp", "src/term/PiShape.cpp", "src/term/SShape.cpp", "src/term/ZShape.cpp", "src/term/Sigmoid.cpp",
   "src/term/SigmoidDifference.cpp", "src/term/SigmoidProduct.cpp", "src/term/Spike.cpp", "src/term/Constant.cpp"],
  [("membership functions", "src/term/*.cpp membership")],
  ["the membership of a value"],
  "the value lies strictly inside the support and the membership is strictly between zero and the height",
  "independent formulas, bounds and shape relations")

P("P10", "Monotonic terms are monotonic and their inverse undoes the membership",
  "Ramp, sigmoid, s-shape, z-shape and concave terms never decrease, or never increase, in the direction their parameters define, and only such "
  "terms report being monotonic. The value given by the inverse for a degree strictly between zero and the height has that degree as membership.",
  ["inputs", "configurations"],
  "All parameters and heights of the monotonic terms, all pairs of values and all degrees.",
  "Tests check a few degrees of one parameterisation.",
  ["src/term/Ramp.cpp", "src/term/Sigmoid.cpp", "src/term/SShape.cpp", "src/term/ZShape.cpp", "src/term/Concave.cpp", "src/term/Term.cpp"],
  [("inverse functions", "src/term/*.cpp tsukamoto"), ("monotonicity flag", "src/term/*.cpp isMonotonic")],
  ["memberships of pairs of values, and membership of the inverse of a degree"],
  "the degree is strictly between zero and the height, or the pair of values has different memberships",
  "round trip membership(inverse(degree)) and order relations")

P("P11", "Norms satisfy the laws of T-norms and S-norms and their own formulas",
  "On degrees between zero and one every T-norm and S-norm equals its documented formula, is commutative, monotonic, stays between zero and one "
  "(the unbounded sum excepted), and has one, or zero, as neutral element. T-norms never exceed the minimum and S-norms never go below the maximum, "
  "T-norms and S-norms that are dual agree through complement, and norms defined by a formula equal that formula.",
  ["inputs"],
  "All triples of degrees in [0,1], biased to the ends, and all norms.",
  "Tests compute tables for one or two hundred fixed values.",
  ["src/norm/t/Minimum.cpp", "src/norm/t/AlgebraicProduct.cpp", "src/norm/t/BoundedDifference.cpp", "src/norm/t/DrasticProduct.cpp",
   "src/norm/t/EinsteinProduct.cpp", "src/norm/t/HamacherProduct.cpp", "src/norm/t/NilpotentMinimum.cpp", "src/norm/s/Maximum.cpp",
   "src/norm/s/AlgebraicSum.cpp", "src/norm/s/BoundedSum.cpp", "src/norm/s/DrasticSum.cpp", "src/norm/s/EinsteinSum.cpp",
   "src/norm/s/HamacherSum.cpp", "src/norm/s/NilpotentMaximum.cpp", "src/norm/s/NormalizedSum.cpp", "src/norm/s/UnboundedSum.cpp",
   "src/norm/t/TNormFunction.cpp", "src/norm/s/SNormFunction.cpp"],
  [("norm formulas", "src/norm/t/*.cpp, src/norm/s/*.cpp compute")],
  ["the value computed for two degrees"],
  "both degrees lie strictly between zero and one",
  "algebraic laws and independent formulas")

P("P12", "Hedges compute their documented modifiers",
  "Each hedge gives for every degree between zero and one its documented value: any is one, not is the complement, very squares, somewhat takes the "
  "square root, extremely and seldom are the piecewise forms that meet at one half, and a hedge defined by a formula equals that formula. All results "
  "stay between zero and one, and hedges keep the order of degrees, except the complement which reverses it.",
  ["inputs"], "All degrees and pairs of degrees in [0,1] and all hedges.",
  "Tests evaluate fixed points.",
  ["src/hedge/Any.cpp", "src/hedge/Not.cpp", "src/hedge/Very.cpp", "src/hedge/Somewhat.cpp", "src/hedge/Extremely.cpp",
   "src/hedge/Seldom.cpp", "src/hedge/HedgeFunction.cpp"],
  [("hedge formulas", "src/hedge/*.cpp hedge")],
  ["the value of a hedge for a degree"], "the degree lies strictly between zero and one",
  "independent formulas, bounds and order relations")

P("P13", "Formulas evaluate to the value of their mathematical expression",
  "Every well-formed formula evaluates, for every assignment of its variables, to the value of the expression it denotes: operators with their "
  "documented precedence and associativity, unary operators, parentheses, nested functions of one and two arguments, and variables. Its postfix form "
  "denotes the same expression, malformed formulas are rejected with the library's exception, and a formula whose parts are unknown is never evaluated "
  "silently.",
  ["inputs", "programs"],
  "All formulas over the registered operators and functions with any nesting and spacing, and all values of the variables.",
  "Tests parse about twenty fixed formulas.",
  ["src/term/Function.cpp", "src/factory/FunctionFactory.cpp", "fuzzylite/Operation.h"],
  [("postfix conversion and tree construction", "src/term/Function.cpp Function::toPostfix, Function::parse"),
   ("operators and functions", "src/factory/FunctionFactory.cpp, fuzzylite/Operation.h")],
  ["the value of the formula, its postfix text, and exceptions"],
  "the formula has at least two operators or functions",
  "evaluation of the generated expression tree, and evaluation of the postfix text by an independent stack machine")

P("P14", "Linear and function terms always read the live engine they belong to",
  "A linear or function term evaluates with the current values of the variables of the engine it belongs to, whatever values they take later. After "
  "copying, exporting and importing, or moving to another engine by updating references, it reads the engine it now belongs to and never the former one.",
  ["histories", "inputs"],
  "All linear and function terms, all changes of variable values, and all orders of copies and updates.",
  "Tests evaluate terms once, without copies or changes.",
  ["src/term/Linear.cpp", "src/term/Function.cpp", "src/Engine.cpp"],
  [("references to the engine", "src/term/Linear.cpp membership, src/term/Function.cpp membership, updateReference"),
   ("update of references on copy", "src/Engine.cpp Engine::updateReferences")],
  ["memberships of the terms and output values of the original and of the copy"],
  "values of the two engines differ and the term depends on a variable",
  "values computed from the description with the values of the engine in question")

P("P15", "Term parameters, configuration and copies round-trip",
  "Configuring a fresh term with the parameters another term reports makes it report the same parameters and compute the same memberships, to the "
  "printed precision. Copies and clones are equal to their originals and independent of them, and too few or non-numeric parameters are rejected with "
  "the library's exception.",
  ["inputs", "configurations"],
  "All terms, parameters and heights, including infinite and NaN parameters, with any numeric settings.",
  "Tests configure a few fixed parameter texts.",
  ["src/term/Term.cpp", "src/term/Discrete.cpp", "src/term/Linear.cpp", "src/term/Function.cpp", "src/factory/TermFactory.cpp"],
  [("parameters and configuration", "src/term/*.cpp parameters, configure"), ("cloning", "src/term/*.cpp clone")],
  ["reported parameters and memberships of original, configured and cloned terms"],
  "the term has a parameter or height that is not a default",
  "round trip and differential comparison")

P("P16", "Engines survive export to and import from the native language",
  "Importing the native-language text exported from an engine gives an engine that exports the same text and processes every input to the same values "
  "as the original, up to the rounding of the printed numbers. This holds for complete and incomplete engines, at any number of decimals, and every "
  "component imported alone keeps its own text. (The language has no enabled flag for rules, and function terms refer to variables declared before.)",
  ["programs", "inputs", "configurations"],
  "All engines whose names and numbers are printable, all separators, indentations and numbers of decimals, and all inputs.",
  "Tests round-trip the bundled examples.",
  ["src/imex/FllExporter.cpp", "src/imex/FllImporter.cpp"],
  [("export", "src/imex/FllExporter.cpp"), ("import", "src/imex/FllImporter.cpp")],
  ["exported texts and output values"],
  "the engine has rules, and an output value is finite",
  "round trip: text fixpoint and behavioural equality")

P("P17", "Native-language texts are read by their documented meaning",
  "Any text written in the native language gives the engine it describes, irrespective of comments, blank lines, indentation, spacing and the order "
  "of properties within a component. Texts with an unknown component, property, term, norm, defuzzifier or activation, with a missing value or a wrong "
  "type of value, are rejected with the library's exception.",
  ["inputs", "programs"],
  "All engine descriptions rendered independently of the exporter with arbitrary layout, and single-point corruptions of them.",
  "Tests import texts written by the exporter.",
  ["src/imex/FllImporter.cpp"],
  [("line-oriented parser", "src/imex/FllImporter.cpp FllImporter::fromString and parse*")],
  ["the components of the imported engine, and exceptions"],
  "the text has a comment, reordered properties or unusual spacing, or exactly one corruption",
  "differential: an engine built from the same description in code; rejection of definite corruptions")

P("P18", "Engines survive export to and import from the Fuzzy Control Language",
  "Importing the FCL text exported from an engine whose components exist in FCL gives an engine with the same variables, terms, norms, defaults "
  "and rules, which exports the same text again and processes every input to the same values up to the rounding of the printed numbers. Texts are read by "
  "their documented meaning irrespective of layout and comments, including the flags of enabling and locking that are read but not exported, and texts with "
  "a definite error are rejected with the library's exception.",
  ["programs", "inputs"],
  "All engines restricted to the norms, defuzzifiers and activation that FCL expresses, and all inputs.",
  "Tests round-trip bundled examples.",
  ["src/imex/FclExporter.cpp", "src/imex/FclImporter.cpp"],
  [("export", "src/imex/FclExporter.cpp"), ("import", "src/imex/FclImporter.cpp")],
  ["exported texts and output values"],
  "the engine has rules, and an output value is finite",
  "round trip: text fixpoint and behavioural equality")

P("P19", "Engines survive export to and import from the Fuzzy Inference System format",
  "Importing the FIS text exported from an engine within the scope of the format gives an engine with the same variables, terms in their own parameter "
  "order, norms, rules with their hedges and weights, which exports the same text again and processes every input to the same values up to rounding. Texts "
  "are read by their documented meaning irrespective of layout and comments, and texts with a definite error are rejected with the library's exception.",
  ["programs", "inputs"],
  "All engines of one rule block with uniform defuzzifiers and flat antecedents of a single connective, and all inputs.",
  "Tests round-trip bundled examples.",
  ["src/imex/FisExporter.cpp", "src/imex/FisImporter.cpp"],
  [("export", "src/imex/FisExporter.cpp"), ("import", "src/imex/FisImporter.cpp")],
  ["exported texts and output values"],
  "the engine has rules, and an output value is finite",
  "round trip: text fixpoint and behavioural equality")

P("P20", "Exported C++ code rebuilds an equivalent engine",
  "The C++ code exported from any engine compiles against the library and, when run, builds an engine with the same native-language description, which "
  "processes every input to the same values as the original up to the rounding of the printed numbers, with and without namespace prefixes and variable "
  "declarations.",
  ["programs", "configurations"],
  "All engines over every component of the library, and all settings of the exporter.",
  "Tests compare text of fixed examples and never compile it.",
  ["src/imex/CppExporter.cpp"],
  [("code generation", "src/imex/CppExporter.cpp")],
  ["compilation, native-language text and output values of the engine built by the exported code"],
  "the engine has at least one rule and a non-default component",
  "compile and run the exported code in batches, and compare with the original engine",
  technique="property-based testing: generated engines exported, compiled and compared")

P("P21", "Exported Java code describes the same engine",
  "The Java code exported from any engine is lexically well formed and consists of the statements that construct, in order, each variable, term, rule "
  "block and rule of the engine with the same names, classes, flags and numbers, so that an interpreter of those statements rebuilds the same engine.",
  ["programs", "configurations"],
  "All engines over every component of the library.",
  "Tests compare text of fixed examples.",
  ["src/imex/JavaExporter.cpp"],
  [("code generation", "src/imex/JavaExporter.cpp")],
  ["the engine rebuilt by interpreting the exported statements"],
  "the engine has at least one rule and a non-default component",
  "an interpreter of the emitted subset of Java that rebuilds the engine through the public interface")

P("P22", "Importers return an engine or raise the library's exception for any text",
  "Whatever text is given, importing it from the native language, FCL or FIS returns an engine that can "
  "be exported, copied and deleted, or raises the library's exception. No text crashes, hangs, reads invalid memory or leaks what was built.",
  ["inputs"],
  "All byte strings, with coverage-guided mutations of valid texts and a grammar of tokens.",
  "Tests import a dozen malformed texts.",
  ["src/imex/FllImporter.cpp", "src/imex/FclImporter.cpp", "src/imex/FisImporter.cpp", "src/imex/Importer.cpp", "fuzzylite/Operation.h"],
  [("parsers", "src/imex/FllImporter.cpp, src/imex/FclImporter.cpp, src/imex/FisImporter.cpp")],
  ["termination, exceptions, sanitizer reports"],
  "the text gets past the first line of the importer",
  "AddressSanitizer, UndefinedBehaviorSanitizer, leak accounting and the type of exception",
  technique="coverage-guided fuzzing with sanitizers from grammar-generated and mutated texts")

P("P23", "Datasets exported from an engine are its inputs and outputs",
  "An exported dataset has one line per combination of input values with the numbers requested, in the documented order, where each line is the given "
  "inputs followed by the outputs the engine yields for them when processed one after another. The grid covers the whole ranges of the active variables with "
  "the requested resolution, inputs read from text reproduce that text's rows with comments and headers skipped, and the flags for headers, inputs and "
  "outputs and the separator are honoured.",
  ["inputs", "configurations"],
  "All engines, numbers of values, scopes, active variables, input texts and exporter settings.",
  "Tests export a few examples with one setting.",
  ["src/imex/FldExporter.cpp"],
  [("grid and reader", "src/imex/FldExporter.cpp write")],
  ["the exported text parsed back into numbers"],
  "at least two rows with a finite output",
  "independently enumerated grid and rows evaluated on a copy of the engine")

P("P24", "Exported R scripts carry the engine and its data",
  "The R script exported for any pair of input variables contains the engine's native-language text, the data (or the path to it) that the engine yields "
  "over the two inputs, and one plot per output variable naming the two inputs, and the script is lexically well formed. The configuration of the engine is unchanged by the export.",
  ["inputs", "configurations"],
  "All engines with at least two inputs, any pair and number of values.",
  "Tests compare one fixed script.",
  ["src/imex/RScriptExporter.cpp"],
  [("script generation", "src/imex/RScriptExporter.cpp")],
  ["the exported script"],
  "the engine has at least two inputs and an output",
  "independent extraction of the data frame and comparison with rows evaluated on a copy")

P("P25", "Copies of an engine are equal, independent and outlive it",
  "A copy, clone, assignment or move of an engine, variable, rule block or other component has the same description and yields the same values for the same inputs. "
  "Changing, processing or destroying either leaves the other's description, values and memory intact.",
  ["histories", "programs"],
  "All engines, all sequences of copying, changing, processing and destroying.",
  "Tests clone examples once and compare their text.",
  ["src/Engine.cpp", "src/variable/Variable.cpp", "src/variable/OutputVariable.cpp", "src/rule/RuleBlock.cpp", "src/rule/Rule.cpp",
   "src/term/Aggregated.cpp", "src/term/Activated.cpp"],
  [("copy construction and assignment", "src/Engine.cpp Engine::copyFrom, src/variable/*.cpp, src/rule/*.cpp")],
  ["texts, values and sanitizer reports of original and copy"],
  "the copy was used after the original was changed or destroyed",
  "differential comparison with an engine built anew from the same description, under AddressSanitizer")

P("P26", "An engine reports being ready exactly when nothing needed to process is missing",
  "When an engine reports being ready and its weighted defuzzifiers and formulas fit its terms, processing any input raises no exception. When an engine lacks something a rule or output needs (conjunction, "
  "disjunction, implication, defuzzifier, aggregation for integral defuzzification, rules, inputs or outputs), it reports not being ready and the status "
  "mentions what is missing.",
  ["configurations", "inputs"],
  "All engines with any subset of components removed, and all inputs.",
  "Tests remove components from one example.",
  ["src/Engine.cpp"],
  [("readiness analysis", "src/Engine.cpp Engine::isReady")],
  ["the readiness flag and status, and exceptions of processing"],
  "at least one component was removed, or the engine processed",
  "list of missing components derived from the description")

P("P27", "The type of an engine is inferred from its defuzzifiers and terms",
  "The type reported is Mamdani, Larsen, Takagi-Sugeno, Tsukamoto, Inverse Tsukamoto, Hybrid or Unknown according to the defuzzifiers, output terms and "
  "implication operators of the engine as documented, independent of the order of variables, terms and blocks. It is a function of the configuration only: "
  "processing, copying, exporting and importing leave it unchanged.",
  ["configurations"],
  "All engines and permutations of their components.",
  "Tests check one engine of each type.",
  ["src/Engine.cpp"],
  [("type inference", "src/Engine.cpp Engine::type")],
  ["the reported type"],
  "the engine has at least two outputs or at least two blocks",
  "decision rules over the description, and permutation metamorphic relation")

P("P28", "Processing is deterministic and free of hidden history",
  "Processing the same inputs on the same state gives identical outputs, and without value locking the outputs depend only on the current inputs, not on what "
  "was processed before. Restarting makes an engine behave as newly built: inputs and outputs become NaN, fuzzy outputs empty, and later outputs equal those "
  "of a fresh engine.",
  ["histories", "inputs"],
  "All engines, histories of inputs, restarts, clears and re-settings.",
  "Tests process rows in one order on one engine.",
  ["src/Engine.cpp", "src/variable/OutputVariable.cpp", "src/rule/RuleBlock.cpp", "src/activation/General.cpp"],
  [("clearing of fuzzy outputs and deactivation of rules before each step", "src/Engine.cpp Engine::process, Engine::restart")],
  ["outputs bit for bit"],
  "a history of at least two different rows with finite outputs",
  "differential comparison with fresh engines, bit for bit")

P("P29", "Components are added, found, replaced and removed like in ordered lists",
  "The inputs, outputs, rule blocks, rules and terms of their owners behave as ordered lists under any sequence of adding, inserting, replacing, removing and "
  "looking up by index or name. Looking up returns the first component with that name, unknown names raise the library's exception or report absence as "
  "documented, and every component is released exactly once.",
  ["histories"],
  "All sequences of container operations with names that may repeat.",
  "Tests call each operation once.",
  ["src/Engine.cpp", "src/variable/Variable.cpp", "src/rule/RuleBlock.cpp"],
  [("container operations", "src/Engine.cpp, src/variable/Variable.cpp, src/rule/RuleBlock.cpp add/insert/set/remove/get/has")],
  ["contents after each operation, and sanitizer reports"],
  "the history removes or replaces a component after inserting one",
  "a vector of names and identities driven by the same history (stateful model-based testing)")

P("P30", "Fuzzification reports the memberships of all terms and the highest one",
  "Fuzzifying a value reports every term of the variable in order with its membership, in text and with signs as documented. The highest membership is "
  "that of a term with the greatest positive membership, none when all are zero, and the fuzzy value of a variable reflects its current value.",
  ["inputs", "configurations"],
  "All variables, terms and values including NaN.",
  "Tests fuzzify a few values of one variable.",
  ["src/variable/Variable.cpp", "src/variable/InputVariable.cpp", "src/variable/OutputVariable.cpp", "src/term/Aggregated.cpp"],
  [("fuzzification", "src/variable/Variable.cpp fuzzify, highestMembership")],
  ["texts, memberships and terms"],
  "at least two terms with positive membership",
  "text rendered independently from the memberships")

P("P31", "Numeric and text operations keep their documented relations",
  "Comparisons within the configured tolerance are consistent with one another, bounding, scaling, rounding, minima and maxima follow their definitions with "
  "NaN, and converting numbers to text and back gives the number to the printed precision. Splitting and joining, trimming, replacing and case conversion of "
  "text obey their definitions, and names are made valid exactly as documented.",
  ["inputs", "configurations"],
  "All numbers including special values and all texts, and all numbers of decimals.",
  "Tests cover fixed values.",
  ["fuzzylite/Operation.h", "src/fuzzylite.cpp"],
  [("numeric and text operations", "fuzzylite/Operation.h")],
  ["results of the operations"],
  "a special value, a separator inside of the text, or a tolerance boundary is involved",
  "independent definitions, laws and round trips")

P("P32", "Factories construct, clone and list exactly what is registered",
  "Constructing by a registered name gives a new, independent object of that class, unregistered names are rejected with the library's exception, and the empty "
  "name gives none. Registering, deregistering and listing behave as a map from names to constructors under any sequence of operations, and copies of "
  "factories are independent.",
  ["histories"],
  "All sequences of factory operations on all factories.",
  "Tests construct each registered class once.",
  ["fuzzylite/factory/ConstructionFactory.h", "fuzzylite/factory/CloningFactory.h", "src/factory/FactoryManager.cpp"],
  [("registries", "fuzzylite/factory/ConstructionFactory.h, fuzzylite/factory/CloningFactory.h")],
  ["available names, classes of constructed objects and exceptions"],
  "the history registers or deregisters and then constructs",
  "a map driven by the same history (stateful model-based testing)")

P("P33", "Benchmarks evaluate the given data and report true errors",
  "A benchmark prepared from an engine or from text processes exactly the expected rows and its statistics are those of the differences between expected and "
  "obtained outputs: mean squared error of the inaccurate ones, numbers of finite and non-finite errors above the tolerance, and their root and normalised errors. "
  "Running several times gives the same outputs and as many time records as runs.",
  ["inputs", "configurations"],
  "All engines, expected datasets with perturbed values, special values and tolerances.",
  "Tests benchmark bundled examples against their own data.",
  ["src/Benchmark.cpp"],
  [("errors and statistics", "src/Benchmark.cpp meanSquaredError, accuracyErrors, numberOfErrors, results")],
  ["obtained values, errors and results"],
  "at least one expected value differs from the obtained one",
  "direct computation of the statistics from the two tables")

P("P34", "Engines in different threads do not interfere",
  "Engines that share no component can be built, processed, copied, exported and destroyed in different threads at the same time, each yielding what it yields "
  "alone. No data race exists between such threads once the library's registry has been created.",
  ["schedules", "programs"],
  "All sets of engines and operations in concurrent threads, under the schedules that occur.",
  "Tests are single-threaded.",
  ["src/Engine.cpp", "src/factory/FactoryManager.cpp", "src/fuzzylite.cpp", "src/imex/FllImporter.cpp"],
  [("absence of shared mutable state outside of the registry", "src/**")],
  ["outputs of each thread, and ThreadSanitizer reports"],
  "at least two threads processed engines with rules",
  "sequential results of the same work, and ThreadSanitizer's happens-before analysis",
  technique="property-based testing of generated concurrent programs under ThreadSanitizer", flavour="tsan")

P("P35", "The command line converts files like the library does",
  "For any engine file and options, the command-line tool writes to the requested file exactly what the corresponding importer and exporter of the library produce, "
  "and dataset options of values, scope, inputs, headers and decimals take effect as documented. Unknown, missing or inconsistent options and unreadable files "
  "are reported by a message and a failing exit status, without touching other files. All bundled examples are exported to every format. The interactive console evaluates the engine on the numbers typed, key by key, "
  "and the benchmark commands report each engine's evaluations, and its differences to the expected outputs of the data.",
  ["inputs", "configurations", "histories"],
  "All engines, formats, combinations of options and sequences of keys.",
  "Tests run a few command lines.",
  ["src/Console.cpp", "src/main.cpp"],
  [("parsing and processing of options", "src/Console.cpp Console::parse, Console::process, Console::main")],
  ["exit status, produced files and messages"],
  "an output file was written, or the options contain exactly one fault",
  "direct use of importers and exporters on the same content")

P("P36", "Fuzzy outputs combine activated terms by implication and aggregation",
  "A fuzzy output's membership at any point is the aggregation, in order, of the implication of each activation degree with its term's membership, zero when empty. "
  "The activation degree of a term aggregates its activations, the greatest and grouped activations follow from these, and adding, removing and "
  "clearing activations behave as in an ordered list.",
  ["inputs", "histories"],
  "All sequences of activations with any terms, degrees, implications, aggregations and points.",
  "Tests combine up to three terms.",
  ["src/term/Aggregated.cpp", "src/term/Activated.cpp"],
  [("membership of activated and aggregated terms", "src/term/Activated.cpp membership, src/term/Aggregated.cpp membership, activationDegree, maximallyActivated, groupedTerms")],
  ["memberships, activation degrees, texts"],
  "at least two activations with positive degree",
  "direct fold over the list of activations")

P("P37", "Everything that is created is released",
  "Building, processing, copying, exporting, importing and destroying engines and components, whether they succeed or raise the library's exception, releases all the "
  "memory they took. Nothing is released twice or used after its release.",
  ["histories", "programs"],
  "All sequences of such operations, including failing ones.",
  "Tests do not account for memory.",
  ["src/Engine.cpp", "src/rule/Rule.cpp", "src/term/Function.cpp", "src/imex/FllImporter.cpp", "src/imex/FclImporter.cpp", "src/imex/FisImporter.cpp"],
  [("destructors and owners", "src/**")],
  ["live allocations before and after each case, and sanitizer reports"],
  "the case created an engine and at least one operation failed or a copy was made",
  "accounting of live allocations per case, and AddressSanitizer")

P("P38", "The library's settings change only what they document",
  "The number of decimals and the scalar format change only how numbers are written in texts, rounded to what was asked for, the comparison tolerance changes only "
  "which values count as equal, and logging and debugging change only what is printed: nothing is printed when both are off. Results, errors, imported "
  "engines and exported texts are otherwise the same under any settings, and restoring the settings restores the texts.",
  ["configurations", "inputs"],
  "All settings, engines, inputs, formats and faulty texts.",
  "Tests run with the default settings and print to the console.",
  ["fuzzylite/fuzzylite.h", "src/fuzzylite.cpp", "fuzzylite/Operation.h", "src/Engine.cpp", "src/Exception.cpp"],
  [("settings and macros of logging and debugging", "fuzzylite/fuzzylite.h"), ("debugging inside of a step", "src/Engine.cpp Engine::process")],
  ["outputs bit for bit, texts, printed characters"],
  "the settings are not the default ones and the case has a result",
  "differential comparison of the same work under different settings")

P("P39", "The bundled examples compute what they describe",
  "Every example engine shipped with the library in FLL, FCL and FIS gives, for any sequence of inputs, the values of the fuzzy model that its text describes, "
  "the same from each format (within what the format can express), reproduces its recorded dataset within the precision printed, and still gives the values "
  "of its model after its operators, rules, weights, defuzzifiers or activation are edited, copied or exported and imported again. The example engines that "
  "the console builds compute what they are named after: the dimmer, sin(x)/x with its approximation and error, and the tipper of the bundled file.",
  ["inputs", "histories", "configurations"],
  "All bundled examples, input sequences on, between and off the recorded points, formats and edits.",
  "A test replays recorded rows of part of the examples, in FLL only.",
  ["examples", "src/imex/FllImporter.cpp", "src/imex/FclImporter.cpp", "src/imex/FisImporter.cpp", "src/Engine.cpp", "src/Console.cpp"],
  [("importers and inference on real engines", "src/imex/*.cpp, src/Engine.cpp")],
  ["output values"],
  "a finite output was compared",
  "an independent reader of FLL feeding the reference interpreter, and the recorded datasets")

P("P40", "Failures are reported and leave engines usable",
  "Whenever something needed is missing or wrong (operators, defuzzifiers, activation methods, rules, formulas, references, names, texts, files), processing and "
  "calls raise the library's exception with a message, the same whenever it is tried again. Failed calls change nothing of the engine, "
  "and once what was missing is restored, every later step gives what a newly built engine gives.",
  ["histories", "programs"],
  "All engines and histories of faults, failing calls, repairs and steps.",
  "Tests check that some calls throw, not what the engine does afterwards.",
  ["src/Engine.cpp", "src/rule/Rule.cpp", "src/rule/RuleBlock.cpp", "src/variable/OutputVariable.cpp", "src/term/Function.cpp"],
  [("exceptions raised in the middle of a step", "src/Engine.cpp Engine::process, src/rule/Antecedent.cpp, src/term/Activated.cpp, src/term/Aggregated.cpp")],
  ["exceptions and their messages, outputs, fuzzy outputs and degrees bit for bit, and the engine's text"],
  "a step failed, and a later one had a finite output",
  "differential comparison with an engine newly built in the same condition", technique="property-based testing with generated histories of injected faults against freshly built engines")

P("P41", "Texts of parts and wholes agree, in memory, in files and in any layout",
  "The text an exporter gives for a component is the one found in the text of its engine, lists of components are written as their members in order, and an "
  "object's own text is that of the exporter. Indentation and separators change only the layout, and importing with the same separator gives the same engine. "
  "Files hold what is given in memory and are read as their text, unusable paths raise the library's exception, and copies of exporters and importers behave as the originals.",
  ["inputs", "configurations"],
  "All engines, also incomplete ones, exporters and importers with any settings, and files.",
  "Tests compare whole texts of fixed engines with default settings.",
  ["src/imex", "src/Engine.cpp", "src/variable", "src/rule"],
  [("exporters' overloads for components, lists and files", "src/imex/*Exporter.cpp toString, src/imex/Exporter.cpp toFile, src/imex/Importer.cpp fromFile")],
  ["texts, contents of files, imported engines, exceptions"],
  "an engine with rules was written",
  "metamorphic relations between the texts of components, lists, layouts, files and copies")

P("P42", "Setting an attribute changes that attribute and nothing else",
  "Every attribute of terms, variables, rules, rule blocks, engines, activation methods, defuzzifiers, benchmarks, exporters and the library's settings returns "
  "the value it was set to last, whatever other attributes are set in between. Only what is documented follows: values are restricted to locked ranges, fuzzy outputs have "
  "their variable's name, range and aggregation, deactivated rules have no degree, new defuzzifiers the default resolution. An object configured by its setters behaves as "
  "its copies and as one constructed with the same values, and wrong names of options are rejected.",
  ["histories", "configurations"],
  "All sequences of setters over all components, with any finite or special values.",
  "Tests set few attributes, once, and look at the one that was set.",
  ["src/term", "src/variable", "src/rule", "src/activation", "src/defuzzifier", "src/Engine.cpp", "src/Benchmark.cpp", "fuzzylite/fuzzylite.h"],
  [("setters and getters", "src/**/*.cpp set*, get*, is*")],
  ["all attributes after each call, texts and memberships of terms"],
  "at least two attributes changed their values",
  "stateful model: a map of attributes and a newly constructed twin")
P("P43", "An edited engine is the engine that its final configuration describes",
  "Whatever an engine was and computed before, after any edits of its variables, terms, rule blocks, rules, operators, activation methods and defuzzifiers (renaming, reconfiguring, "
  "replacing, moving, adding and removing them, in any order), once its formulas and rules are loaded again it has the text, the status and the results of an engine built anew "
  "with that configuration, and so have its copies. Rules and formulas refer to the components that are in the engine when they are loaded.",
  ["histories", "configurations"],
  "All pairs of configurations and orders of edits between them, interleaved with processing and copying.",
  "Tests build each engine once and process it as it is.",
  ["src/Engine.cpp", "src/rule/RuleBlock.cpp", "src/rule/Rule.cpp", "src/rule/Antecedent.cpp", "src/rule/Consequent.cpp", "src/term/Function.cpp", "src/term/Linear.cpp", "src/variable"],
  [("binding of rules and formulas", "src/rule/Rule.cpp Rule::load, src/rule/RuleBlock.cpp RuleBlock::loadRules, src/Engine.cpp Engine::updateReferences")],
  ["texts, status, values, fuzzy outputs and degrees"],
  "a component was edited in place, and an output is finite",
  "differential: an engine built anew from the same description")

P("P44", "Configurations that mean the same give the same results",
  "Renaming engines, variables, terms and blocks consistently, reordering inputs, outputs or terms, adding unused variables or terms and disabled or weightless rules and blocks, "
  "commuting and doubly negating parts of antecedents, splitting blocks, conclusions or alternatives into several rules, repeating rules under an idempotent aggregation, "
  "reordering rules that do not read outputs, and changing the units of variables, leave the results of an engine as they were, whatever its size.",
  ["inputs", "configurations"],
  "All engines up to dozens of rules, such rewritings of them, and sequences of inputs.",
  "Tests compare single engines with recorded values.",
  ["src/Engine.cpp", "src/rule", "src/term", "src/variable", "src/activation", "src/defuzzifier", "src/norm", "src/hedge"],
  [("inference", "src/Engine.cpp Engine::process")],
  ["output values of both engines"],
  "an output is finite",
  "metamorphic: engines rewritten by rules that keep their meaning")
