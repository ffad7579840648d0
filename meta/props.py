AI = 'static analysis: path-sensitive abstract interpretation of the type-checked AST (libTooling), '
NOTE = ('Sound over the modelled C++ subset for the listed functions; library calls and allocation are modelled, integer types are unbounded '
        'except where a conversion is an obligation; whatever the domain cannot decide is reported as undecided in the evidence and never as a violation. ')
PROPS = [
 dict(id='C01', title='Firing rule: enabledness, token game and successor enumeration are exact',
  statement='A transition is offered as a successor exactly when every ordinary input arc has at least its weight in tokens and every inhibitor arc has strictly fewer tokens than its weight; firing it removes each ordinary input weight, adds each output weight, changes no other place, and refuses to store a token count that exceeds 32 bits. '
            'Enumerating the successors of a marking yields every enabled transition exactly once (restricted to the requested player for games), and a marking is called deadlocked exactly when no transition is enabled.',
  quant='every net (weights, inhibitor arcs, arc-less transitions), every marking, every transition', over=['inputs', 'histories'],
  why='Tests explore a handful of small nets; the arc combinations, boundary weights and counter positions that separate a wrong enabledness or update test from a right one are unbounded.',
  files=['src/PetriEngine/SuccessorGenerator.cpp', 'include/PetriEngine/SuccessorGenerator.h', 'src/PetriEngine/PetriNet.cpp', 'include/PetriEngine/PetriNet.h', 'src/PetriEngine/Stubborn/StubbornSet.cpp', 'include/PetriEngine/Stubborn/StubbornSet.h', 'include/PetriEngine/Synthesis/GameSuccessorGenerator.h'],
  mech=[('enabledness test', 'SuccessorGenerator::checkPreset, StubbornSet::checkPreset, PetriNet::fireable'), ('token update', 'SuccessorGenerator::consumePreset/producePostset/_fire'), ('enumeration', 'SuccessorGenerator::_next, GameSuccessorGenerator::next_ctrl/next_env, StubbornSet::constructEnabled'), ('deadlock', 'PetriNet::deadlocked'), ('arc lookup', 'PetriNet::inArc/outArc/preset/postset')],
  tech=AI + 'ghost-state classification of arc loops against the firing rule',
  note=NOTE + 'Exactness is relative to the arc encoding built by the net builder.'),
 dict(id='C02', title='State formulas evaluate by exact three-valued (Kleene) semantics',
  statement='Evaluating a query in a marking returns true or false only when the formula has that value in the marking regardless of how its path-quantified parts turn out, and unknown otherwise: conjunction, disjunction, negation, comparisons, compare-conjunctions, deadlock, fireability and the temporal operators follow their Kleene tables, for any number of operands in any order. '
            'The variant that records satisfaction in the formula tree computes the same values and records the value of the node it evaluated.',
  quant='every formula, every marking, every combination of known/unknown operand values', over=['inputs'],
  why='Tests evaluate a few formulas in a few markings; the tables range over operand count, order, unknown positions and comparison boundaries.',
  files=['src/PetriEngine/PQL/Evaluation.cpp', 'include/PetriEngine/PQL/Evaluation.h', 'src/LTL/Stubborn/LTLEvalAndSetVisitor.cpp'],
  mech=[('plain evaluation', 'EvaluateVisitor'), ('evaluate and record', 'BaseEvaluateAndSetVisitor, EvaluateAndSetVisitor, LTLEvalAndSetVisitor')],
  tech=AI + 'operand results in {true,false,unknown} with loop fixpoints, comparisons over linear forms',
  note=NOTE),
 dict(id='C03', title='Arithmetic expressions evaluate to their mathematical value in the marking',
  statement='Integer expressions over a marking (constants, place references, sums, products, differences, negation, with any nesting and number of operands) evaluate to their mathematical value in that marking; no operand is dropped, duplicated or misread when sums and products are flattened, and no step narrows a value below the width of the result type.',
  quant='every expression, every marking', over=['inputs'],
  why='Flattening merges constants, places and sub-expressions in ways that depend on operand order and multiplicity; tests cover a few shapes with small values.',
  files=['src/PetriEngine/PQL/Evaluation.cpp', 'src/PetriEngine/PQL/Expressions.cpp', 'include/PetriEngine/PQL/Expressions.h'],
  mech=[('evaluation', 'ExprEvalVisitor'), ('construction', 'CommutativeExpr::init/handle, PlusExpr, MultiplyExpr constructors')],
  tech=AI + 'Herbrand terms with loop folds compared with the denoted sum/product',
  note=NOTE),
 dict(id='C04', title='Negation pushing and temporal rewrites preserve query meaning',
  statement='Preprocessing a query by pushing negations inward, folding trivial sub-formulas, and applying the temporal/boolean rewrite rules yields a query with the same truth value in every marking of every net (respecting deadlocked and infinite runs, nested or top-level position, and the initial-marking assumptions it is given); the negated-flag convention (result equals the negation of the input when asked) is honoured by every operator.',
  quant='every formula, every net and marking, both polarities, both nesting modes', over=['inputs', 'configurations'],
  why='Each rewrite is triggered by a particular shape of sub-formula and polarity, and wrong ones differ only in states such as deadlocks or on particular paths.',
  files=['src/PetriEngine/PQL/PushNegation.cpp', 'include/PetriEngine/PQL/PushNegation.h'],
  mech=[('rewrite visitor', 'PushNegationVisitor::_accept, pushAnd, pushOr'), ('trivial comparisons', 'CompareCondition::isTrivial and friends')],
  tech=AI + 'symbolic result formulas compared with the operator semantics over all small Kripke structures/lassos',
  note=NOTE + 'Equivalence of a symbolic result with the input is decided on all Kripke structures of up to three states (a wrong rewrite is refuted by a concrete small structure; a right one is shown for these and argued, not proved, beyond).'),
 dict(id='C05', title='Building and merging conjunctions and disjunctions preserves meaning',
  statement='Combining formulas into a conjunction or disjunction (makeAnd, makeOr, the And/Or constructors) denotes exactly the conjunction or disjunction of the operands in every marking, including when operands are flattened, when comparisons of one place with a constant are merged into interval constraints, when interval sets are merged, negated or copied, and for constants at the edges of the token range (0, negative, 32-bit maximum). Building a formula never throws or fails an assertion.',
  quant='every operand list, constants and markings', over=['inputs'],
  why='Merging depends on the combination of operand kinds, polarity, orientation and boundary constants; tests build a few formulas.',
  files=['src/PetriEngine/PQL/Expressions.cpp', 'include/PetriEngine/PQL/Expressions.h'],
  mech=[('construction', 'makeAnd, makeOr, makeLog, tryMerge, AndCondition/OrCondition constructors'), ('intervals', 'CompareConjunction::merge, cons_t::invert/intersect, singular, copy constructor')],
  tech=AI + 'bounded operand lists with symbolic constants and bounds, results compared with the operands at the boundary values of the token domain',
  note=NOTE + 'Operand lists have up to three operands and intervals over up to three places; longer lists are covered by the pairwise merge steps, not separately. Interval constraints that allow every count are assumed absent (no constructor in the tree produces one).'),
 dict(id='C06', title='Query classification and reachability extraction are exact at any depth',
  statement='The classification tests that select algorithms and reductions look at the whole query: isTemporal, containsNext, containsUpperBounds, containsDeadlock, hasNestedDeadlock, the fireability test, isReachability and isLoopSensitive answer according to their definition for every formula, whatever the nesting, operand order and sibling sub-formulas (contains-next also answers yes for hyper-path quantifiers), and a verdict once reached is not taken back. '
            'prepareForReachability returns for a (repeatedly negated) EF/AG/E F/A G query the state predicate to search for, marked invariant exactly when the query is the negation of that predicate being reachable, and no predicate (or an exception) for other queries. Visiting a node calls the handler of the node\'s own class.',
  quant='every formula', over=['inputs'],
  why='Each test is a traversal over some forty node classes with context flags; a missed child, a leaked flag or a wrong forwarding shows only for particular nestings.',
  files=['src/PetriEngine/PQL/PredicateCheckers.cpp', 'include/PetriEngine/PQL/PredicateCheckers.h', 'src/PetriEngine/PQL/PrepareForReachability.cpp', 'include/PetriEngine/PQL/Visitor.h', 'include/PetriEngine/PQL/Expressions.h'],
  mech=[('classification', 'isTemporal, isReachability, isLoopSensitive, containsNext, containsUpperBounds, containsDeadlock, hasNestedDeadlock and their visitors'), ('reachability extraction', 'prepareForReachability'), ('traversal and dispatch', 'Visitor::visit, Visitor::visit_expr, BaseVisitor')],
  tech=AI + 'inductive transfer-function check per node class over all reachable visitor contexts',
  note=NOTE + 'Conjunctions and disjunctions are analysed with up to three operands.'),
 dict(id='C07', title='Stubborn sets keep every way to reach the query goal',
  statement='For every net (weighted and inhibitor arcs), marking and reachability query, the stubborn set computed in a marking contains every transition whose effect could bring a currently false query closer to being true (for every operand, comparison direction, arithmetic operator, interval bound and polarity), and is closed: for an enabled member all transitions competing for the tokens it removes and all transitions it inhibits are members; for a disabled member all transitions that could remove one of its disabling causes are members. All enabled members are produced as successors, exactly once and for the marking asked for, and the values consulted are those of the current marking, not of an earlier one.',
  quant='every net, marking, query and exploration history', over=['inputs', 'histories'],
  why='A missing transition only shows as a wrong "unreachable" answer for particular combinations of net structure, marking and query.',
  files=['src/PetriEngine/Stubborn/StubbornSet.cpp', 'include/PetriEngine/Stubborn/StubbornSet.h', 'src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp', 'src/PetriEngine/Stubborn/ReachabilityStubbornSet.cpp', 'src/PetriEngine/ReducingSuccessorGenerator.cpp'],
  mech=[('interesting transitions', 'InterestingTransitionVisitor, IncrVisitor, DecrVisitor, AutomatonInterestingTransitionVisitor'), ('closure', 'StubbornSet::closure, presetOf, postsetOf, inhibitorPostsetOf, addToStub'), ('tables', 'constructPrePost, checkForInhibitor'), ('extraction', 'prepare, next, reset, ReducingSuccessorGenerator')],
  tech=AI + 'requests of each visitor and closure step compared with the definition of interesting transitions and closed sets, over bounded arc lists with symbolic weights, directions and markings',
  note=NOTE + 'Closure and tables are interpreted for arc lists of up to three arcs per transition; the ignoring problem of cycles (not relevant to reachability by exhaustive search of the reduced graph) and the choice among admissible sets are outside the claim.'),
 dict(id='C08', title='Analysing a query binds every name and expands derived propositions correctly',
  statement='Analysing a query against a net leaves a query whose evaluation has the meaning of the named query: every place name reads that place (a coloured place the sum of all its unfolded places, no token counted twice), fireability of a transition is the conjunction of its input and inhibitor arc conditions (of a coloured transition the disjunction over its bindings, false without bindings), k-safeness, quasi-liveness, liveness, stable marking and upper bounds expand over all places/transitions with the correct initial markings; operands in every position are analysed, trace references carry the number of their quantifier, and unknown or misused names raise an error.',
  quant='every query, every net, plain and coloured naming', over=['inputs', 'configurations'],
  why='A wrong offset, missed operand or narrowed constant shows up only for particular node classes, name orders, arc weights, inhibitor arcs or token counts.',
  files=['src/PetriEngine/PQL/Analyze.cpp', 'src/PetriEngine/PQL/Contexts.cpp', 'include/PetriEngine/PQL/Contexts.h', 'include/PetriEngine/PQL/Expressions.h'],
  mech=[('visitor', 'AnalyzeVisitor::_accept'), ('resolution', 'AnalysisContext::resolve, resolve_trace_name, ColoredAnalysisContext::resolvePlace/resolveTransition')],
  tech=AI + 'analysed trees over an abstract net with symbolic weights and initial tokens compared with the denotation of the named query over a finite grid of valuations and all small transition systems',
  note=NOTE),
 dict(id='C09', title='Query simplification preserves the meaning of the query',
  statement='Simplifying a query against the initial marking and the state equation of the net never changes its answer: for every operator and polarity the simplified formula has the same truth value in the initial marking and in every marking satisfying the state equation; a comparison is replaced by true or false only if it holds, or fails, for every reachable token vector; the linear programs attached to a sub-formula (and to its negation) are implied by it, every combination of operand programs is examined before a formula is declared impossible, a program is called impossible only if the solver proves infeasibility, and place bounds derived by linear programming are upper bounds of every reachable token count.',
  quant='every query, net, initial marking, polarity and solver answer', over=['inputs', 'configurations'],
  why='A wrong sign, polarity, constant width or dropped combination of linear programs shows only for a particular mix of operators, weights and solver verdicts.',
  files=['src/PetriEngine/PQL/Simplifier.cpp', 'include/PetriEngine/Simplification/Member.h', 'src/PetriEngine/Simplification/LinearProgram.cpp', 'src/PetriEngine/Simplification/LinearPrograms.cpp', 'include/PetriEngine/Simplification/LinearPrograms.h', 'include/PetriEngine/Simplification/LPCache.h', 'src/PetriEngine/PQL/Contexts.cpp'],
  mech=[('simplification', 'Simplifier::_accept, simplify_simple_quantifier, simplify_and/or, ConstraintVisitor, Member'), ('linear programs', 'UnionCollection, MergeCollection, SingleProgram, LinearProgram::isImpossible, LinearProgram::bounds, SimplificationContext::buildBase, Vector')],
  tech=AI + 'simplified formulas and attached linear programs of every path compared with the operator semantics, over small Kripke structures and a finite grid of coefficients, constants and firing counts',
  note=NOTE + 'Game (control) queries are analysed un-negated; the operators the tool rejects at this stage (E/A path quantifiers of LTL kind) are outside. The solver is trusted: its answers are free, an answer other than "optimal/feasible/infeasible/unbounded" is outside. Nets have at most one input arc per place and transition; upper-bound queries enter with offset zero.'),
 dict(id='C10', title='Queries read from XML mean what the document says',
  statement='A query read from an XML query file means what its elements say: every operator element yields a formula with the semantics of that operator over exactly its operands, in order and in the number written (all-paths/exists-path with globally, finally, next, until; negation, conjunction, disjunction, exclusive-disjunction, implication, equivalence; integer comparisons, sums, products, differences, constants of up to 64 bits, tokens-count over the listed places; is-fireable, place-bound, deadlock, control, path scopes and the named properties); every property of the file appears once, in file order, under its own identifier, restricted to the selected subset when one is given; malformed or unsupported documents (missing or surplus operands, unknown elements, non-numeric constants) are reported and never yield a different query.',
  quant='every query document: operators, operand counts, nesting, constants, selections', over=['inputs'],
  why='Each element can occur in any nesting, operand count and order, and most mistakes yield a well-formed but different query.',
  files=['src/PetriParse/QueryXMLParser.cpp', 'include/PetriParse/QueryXMLParser.h', 'src/PetriEngine/PQL/Expressions.cpp', 'include/PetriEngine/PQL/Expressions.h'],
  mech=[('XML query reader', 'QueryXMLParser::parse, parsePropertySet, parseProperty, parseFormula, parseBooleanFormula, parseIntegerExpression'), ('node construction', 'LogicalCondition, CommutativeExpr, NaryExpr constructors')],
  tech=AI + 'the query tree built on every path compared with the meaning of the document',
  note=NOTE + 'The rapidxml library is trusted (its accessors are modelled over document trees). Refusal may be an error result, an exception or a failed assertion. The meaning of the is-reachability tag and of unknown attributes is not specified.'),
 dict(id='C11', title='Written queries can be read back with the same meaning',
  statement='Every query the tool can write (after parsing, name resolution and simplification) is read back unchanged in meaning: the XML form read by the XML query reader, and the binary form read by the binary query reader, yield for every operator, operand list, place, bound and constant (64 bits) a query with the same truth value in every model, the same places and bounds for bound queries and the same identifiers in the same order; what is written is always readable, nothing of it is left over, and every binary field is read with the width it was written with.',
  quant='every query the tool can hold', over=['inputs', 'formats'],
  why='The writer and the reader live in different files and each looks right alone; a disagreement shows only for particular operators, constants or operand counts.',
  files=['src/PetriEngine/PQL/XMLPrinter.cpp', 'include/PetriEngine/PQL/XMLPrinter.h', 'src/PetriEngine/PQL/BinaryPrinter.cpp', 'src/PetriParse/QueryBinaryParser.cpp', 'src/PetriParse/QueryXMLParser.cpp'],
  mech=[('writers', 'XMLPrinter::_accept, XMLPrinter::print, BinaryPrinter::_accept'), ('readers', 'QueryXMLParser::parse, QueryBinaryParser::parse, parseQuery, parseExpr')],
  tech=AI + 'output of the writer as a sequence of text or typed fields, fed to the interpretation of the reader',
  note=NOTE + 'Place and transition names contain no XML markup characters. The frame of a binary file (number of queries, table of place names) is the one the command-line tool writes. Conjunctions of place bounds hold no bound that excludes nothing, differences have at least two operands: no other are built.'),
 dict(id='C12', title='Nets are read from PNML as they are written',
  statement='For every net document (plain or coloured PNML, and marking documents), the builder is given exactly the net of the document: each place with its token count or initial multiset and type, each transition with its player and guard, each arc with its direction, kind (normal, inhibitor, both halves of a transport arc) and weight or expression, nodes before arcs; colour types with their colours in order (enumerations, integer ranges, dot, products in whatever order they are declared) and variables with their types. Guards (any nesting of not, and, or with any number of operands, all comparisons), arc expressions and initial multisets (numberof, all, tuples, add, subtract, scalarproduct, successor, predecessor, partitions) have the value of the document under every binding. Documents with unsupported or malformed parts are refused.',
  quant='every net document: all nestings, operand counts and declaration orders', over=['inputs'],
  why='Every element can occur in any nesting, operand count and order, and most mistakes yield a well-formed but different net.',
  files=['src/PetriParse/PNMLParser.cpp', 'include/PetriParse/PNMLParser.h', 'src/PetriEngine/Colored/Colors.cpp', 'include/PetriEngine/Colored/Colors.h'],
  mech=[('net reader', 'PNMLParser::parse, parseElement, parsePlace, parseArc, parseTransportArc, parseTransition, parseMarking'), ('coloured terms', 'PNMLParser::parseGuardExpression, parseArcExpression, parseNumberOfExpression, parseColorExpression, collectColorsInTuple, cartesianProduct'), ('declarations', 'PNMLParser::parseDeclarations, parseNamedSort, parsePartitions')],
  tech=AI + 'the calls of the net builder on every path compared with the document, the terms built by their value under every binding',
  note=NOTE + 'The rapidxml library is trusted (its accessors are modelled over document trees), and the evaluation of a built term (EvaluationVisitor) is modelled as its value. Colour ids are unique except between the types of different places, integer ranges are not negative, numberof holds one colour term, weights are below 2^31. Arcs whose ends do not exist, and what happens when one parser object reads two documents, are not specified.'),
 dict(id='C13', title='Coloured expressions evaluate to the multiset or truth value they denote',
  statement='For every arc expression and every binding of its variables the evaluation yields exactly the multiset the expression denotes: numberof counts each of its colours, sums, differences (never below zero, colour by colour) and multiples are those of the operands, successor and predecessor are cyclic in the order of the type, and a tuple is the colour of the product type with those components. For every guard and binding the evaluation yields its truth value, with colours of one type ordered by their position. Multiset operations (sum, difference, multiple, count, size, emptiness, inclusion, strict inclusion, enumeration) depend only on the counts, never on the order in which entries are stored, and do not change their operands. The colours of a product type correspond one to one to the tuples of components, by number, by components and by component numbers alike, and each colour is one object, so that comparing colours by identity is sound.',
  quant='all expressions, bindings, colour types and multisets (any counts, any order of entries)', over=['inputs'],
  why='The results depend on the order of entries and on the sizes of the types, so a mistake shows only for particular products, orders or bindings.',
  files=['src/PetriEngine/Colored/EvaluationVisitor.cpp', 'include/PetriEngine/Colored/EvaluationVisitor.h', 'src/PetriEngine/Colored/Multiset.cpp', 'include/PetriEngine/Colored/Multiset.h', 'src/PetriEngine/Colored/Colors.cpp', 'include/PetriEngine/Colored/Colors.h', 'include/PetriEngine/Colored/Expressions.h'],
  mech=[('evaluation', 'EvaluationVisitor::evaluate, EvaluationVisitor::accept, ExpressionContext::findProductColorType'), ('multisets', 'Multiset::operator+=, operator-=, operator*=, operator[], isSubsetOf, isSubsetOrEqTo, empty, size, Iterator::operator*'), ('colours', 'Color::operator++, operator--, getTupleId, ProductType::operator[], getColor, size')],
  tech=AI + 'results compared with the denotation of the expression under every binding, multisets with symbolic counts',
  note=NOTE + 'The expression objects are those built by the interpretation of the PNML reader; the result is compared with the meaning of the object tree. No partition of colours is in force, no count exceeds 32 bits, no two product types have the same components.'),
 dict(id='C14', title='The explicit coloured engine compiles guards and arc expressions faithfully',
  statement='What the explicit coloured engine compiles an arc expression to has, for every binding of the variables, exactly the multiset the expression denotes: when it is evaluated, when it is compared with a marking (enabled exactly if the marking covers it colour by colour), when it is taken from a marking that covers it and when it is added to a marking. A compiled guard is true exactly for the bindings that satisfy the guard. The variables reported for an expression are those it mentions. The least and greatest number of tokens, the colours demanded in any case and the constraints on variables hold for every binding, so that no enabled binding is ever skipped because of them. Successor and predecessor are cyclic in the component\'s own type. Expressions outside the supported fragment are refused with an error, never compiled to something else. The multisets of the engine (sum, difference cut off at zero, multiple, count, inclusion in both directions, equality, clean-up) depend only on the counts of the colours, their stored total is the sum of their counts, and colours of product types correspond one to one to numbers.',
  quant='all expressions of the supported fragment, all bindings, all colour types, all multisets (any counts below 2^31)', over=['inputs'],
  why='A bound that is too strong or a component wrapped by the wrong size loses transitions only for particular expressions, bindings and markings.',
  files=['src/PetriEngine/ExplicitColored/ArcCompiler.cpp', 'src/PetriEngine/ExplicitColored/ExpressionCompilers/GuardCompiler.cpp', 'include/PetriEngine/ExplicitColored/ExpressionCompilers/ArcCompiler.h', 'include/PetriEngine/ExplicitColored/SequenceMultiSet.h', 'include/PetriEngine/ExplicitColored/ColorSequence.h', 'include/PetriEngine/ExplicitColored/Binding.h', 'include/utils/MathExt.h'],
  mech=[('arcs', 'ArcCompiler::compile, replaceConstants, preCalculate, CompiledArcExpression::eval, isSubSet, consume, produce, getMinimalMarkingCount, getUpperBoundMarkingCount, getMinimalColorMarking, calculateVariableConstraints, getVariables'), ('guards', 'GuardCompiler::compile, CompiledGuardExpression::eval, collectVariables'), ('multisets', 'SequenceMultiSet::operator+=, operator-=, operator*=, operator<=, operator>=, operator==, addCount, setCount, getCount, fixNegative, shrink'), ('colours', 'ColorSequence::ColorSequence, decode, addColorOffset')],
  tech=AI + 'the compiled object interpreted for every binding and compared with the denotation of the expression, multisets with symbolic counts',
  note=NOTE + 'The expression objects are those built by the interpretation of the PNML reader. Types of one to four colours and products of up to three of them; three variables. Refusal (an exception) is accepted for several colours under one numberof, for a whole type outside a tuple, for a multiple of zero and for counts of 2^31 and more; products of weights that overflow 32 bits are not considered.'),
 dict(id='C15', title='The explicit coloured engine generates exactly the successors of a marking',
  statement='The net the explicit coloured engine builds has the initial marking, arcs, guards and inhibitor arcs it was given, attached to the transitions they belong to. For every marking, the successors produced are exactly those of the firing rule: a transition with a binding of all variables of its guard, input and output arcs is fired exactly once if the guard holds, every input place covers the value of its arc, and no inhibitor place has at least the weight of the inhibitor in tokens; firing takes the values of the input arcs and adds those of the output arcs, and the explored marking itself is not changed. This holds for both search states (all bindings of a transition before the next, and transitions in turn), however the exploration of several markings is interleaved in one generator, whether the bindings are tried one by one or narrowed by the tokens in the input places (more than 30 bindings), and after the data of a state number were dropped and the number reused. Enumerating the bindings of a transition, from any recorded binding number, gives the enabled bindings with the values of all its variables; a transition is reported fireable exactly if one exists and a marking a deadlock exactly if there is none for any transition. New states get numbers of their own and record their predecessor and transition. Nothing outside the built tables is read.',
  quant='all nets of the supported fragment, all markings, all numbers of variables and bindings, every interleaving of explorations', over=['inputs', 'histories'],
  why='A narrowing that drops a binding, an offset into the wrong transition\'s arcs or stale narrowing data loses or invents transitions only for particular nets and orders of exploration.',
  files=['src/PetriEngine/ExplicitColored/ExplicitColoredPetriNetBuilder.cpp', 'src/PetriEngine/ExplicitColored/ColoredPetriNet.cpp', 'src/PetriEngine/ExplicitColored/SuccessorGenerator/ColoredSuccessorGenerator.cpp', 'include/PetriEngine/ExplicitColored/SuccessorGenerator', 'include/PetriEngine/ExplicitColored/ColoredPetriNetState.h', 'include/PetriEngine/ExplicitColored/FireabilityChecker.h'],
  mech=[('building', 'ExplicitColoredPetriNetBuilder::build, _createArcsAndTransitions, _calculateTransitionVariables, _calculatePrePlaceConstraints, addPlace, addInputArc, addOutputArc'), ('successors', 'ColoredSuccessorGenerator::next, _nextFixed, _nextEven, fire, checkInhibitor, checkPresetAndGuard, _hasMinimalCardinality'), ('narrowing', 'ColoredSuccessorGenerator::findNextValidBinding, _calculateConstraintData, shrinkState, _getKey, IntegerPackCodec, PossibleValues'), ('states', 'ColoredPetriNetStateFixed, ColoredPetriNetStateEven::getNextPair, updatePair'), ('fireability', 'FireabilityChecker::canFire, hasDeadlock')],
  tech=AI + 'nets built by the interpreted builder, exploration of interleaved markings by the interpreted generator compared with the firing rule over every binding',
  note=NOTE + 'Fourteen nets of up to six transitions and 54 bindings per transition; the arc expressions themselves are the subject of C14. More than 65535 transitions (whose narrowing data share keys) and the search loop itself, which needs a library that is not installed, are not covered.'),
 dict(id='C16', title='Markings survive their compact encoding, and equal markings have equal encodings',
  statement='For every marking of every net: with the storage form selected for it from its number of marked places, whether all marked places hold the same number of tokens, and its largest token count, encoding writes only inside the scratchpad, the bytes written do not depend on what the encoder encoded before, the size computed from the bytes alone is the number of bytes the encoding took, and decoding exactly those bytes into a destination with any content gives the marking back, whatever the token counts (up to 2^32-1) and the number of places. So two markings have the same encoding exactly if they are equal. Neither direction reads or writes outside the marking, the encoding or the scratchpad, and the encoded bytes are not changed by reading them.',
  quant='all markings, all numbers of places, all earlier uses of the encoder', over=['inputs', 'histories'],
  why='A wrong width, bound or left-over bit merges or duplicates states only for particular token counts, numbers of places or orders of encoding; the search then answers wrongly without any sign.',
  files=['src/PetriEngine/Structures/AlignedEncoder.cpp', 'include/PetriEngine/Structures/AlignedEncoder.h', 'src/PetriEngine/Structures/binarywrapper.cpp', 'include/utils/structures/binarywrapper.h'],
  mech=[('choice of storage form', 'AlignedEncoder::getType, tokenBytes'), ('encoding', 'AlignedEncoder::encode, writeBitVector, writeTwoBitVector, writeTokens, writeTokenCounts, writePlaces'), ('decoding', 'AlignedEncoder::decode, readBitVector, readTwoBitVector, readTokens, readPlaces, readPlaceTokenCounts, readBitTokenCounts'), ('size', 'AlignedEncoder::size, placeTokenCountsSize, bitTokenCountsSize'), ('bits', 'ptrie::binarywrapper_t::set, at, zero, bytes, raw')],
  tech='byte-level abstract interpretation of the syntax tree: memory as blocks of cells, token counts as intervals split at every distinction the code makes, round trip compared with the marking',
  note=NOTE + 'Numbers of places up to 17, and 32, 33, 65, 255, 256 and 300 (thorough: up to 520), with the sets of marked places on both sides of every boundary between storage forms; 4200 places with 258 marked and 65536 places with four marked for the wider place numbers. The hash set the encodings are put in is a library that is not installed.'),
]
NA = [
 dict(id='N01', title='End-to-end verdict equals the formula\'s truth in the net\'s state space',
  statement='For every net and query for which an answer is printed, the answer equals the truth of the query in the full (unreduced) reachability graph of the net, whatever combination of reductions, simplification, partial order and search strategy is enabled.',
  quant='every net, query and option combination', over=['inputs', 'configurations'],
  why='Tests run a handful of models.',
  files=['src/VerifyPN.cpp', 'src/PetriEngine', 'src/CTL', 'src/LTL'], mech=[('whole tool', 'src/VerifyPN.cpp')],
  reason='The verdict quantifies over the runtime reachability graph; no static argument in reach relates the search loops, hashed state sets and reductions to it. The parts with a local, state-independent specification are claimed separately.'),
 dict(id='N02', title='Exploration visits every reachable state once and terminates on finite nets',
  statement='On a net with finitely many reachable markings the explicit searches visit every reachable marking exactly once, and terminate.',
  quant='every bounded net', over=['inputs', 'histories'],
  why='Tests sample small nets.',
  files=['src/PetriEngine/Reachability/ReachabilitySearch.cpp', 'include/PetriEngine/Structures/StateSet.h'], mech=[('state storage', 'StateSet (ptrie, external library)')],
  reason='Depends on the contents of a runtime hash/trie from an external library whose source is not in the tree, and on termination of data-dependent loops.'),
]
