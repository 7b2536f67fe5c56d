package main

// Property binds a property to the rules that decide it.
type Property struct {
	technique string
	explain   string
	rules     []func(*Report)
	min       map[string]int // instances that must be found
}

// specsOf compares all functions specified under one of the prefixes.
func specsOf(n int, prefixes ...string) func(*Report) {
	return func(r *Report) {
		before := r.counts["comparisons"]
		for _, p := range prefixes {
			if len(p) == 3 {
				p += "_"
			}
			r.specs(p)
		}
		if k := r.counts["comparisons"] - before; k < n {
			r.bad("instances", "?", "%d specifications found, at least %d expected", k, n)
		}
	}
}

const compared = "Each function under analysis is abstracted, from its SSA form, into the texts it emits, the values it binds, the parts it renders, the memory it changes, its panics and its results, as terms over its inputs (loops are summarised in closed form; calls are followed; nothing is executed). The abstraction is compared, case by case over the conditions that occur, with that of a specification. "

const explored = "Each function is explored, from its SSA form, on all its inputs (symbolic arguments, loops summarised in closed form, calls followed; nothing is executed). "

const simulated = "The function under analysis is stepped, in its SSA form, from loop head to loop head with symbolic state; an automaton that reads its input one element at a time, with unbounded counters, follows it. The pairs of states are generalised until no new one arises, so that all inputs of any length are covered; in each pair both must end alike, and the function under analysis must consume input on every cycle (it terminates). Nothing is executed. Besides: " + compared

func rules(r ...func(*Report)) []func(*Report) { return r }

var properties = map[string]*Property{
	"C01": {technique: "abstract interpretation: taint of texts, and specifications of what binds values", explain: explored + "Here: no text that a renderer writes contains a value given to be bound, nor a rendering made apart; nothing but the debug context makes literals; and the contexts, the conversions of values and lists, and the comparisons agree with specifications in which values are only bound.",
		rules: rules(func(r *Report) {
			r.noData("text", r.w.renderers())
			r.noUse("literals", "makes no literal", []string{repoModule, repoModule + "/stmt", repoModule + "/builder"}, callsInto(repoModule+"/format"))
			r.noUse("context", "contexts are only written to, bound to and passed on", []string{repoModule, repoModule + "/stmt", repoModule + "/builder"}, contextUse)
		}, specsOf(98, "C02", "C10_value", "C10_array", "C10_in", "C19", "C20", "C11", "C09_values", "C17_merge", "C24_insertValues"))},
	"C02": {technique: "abstract interpretation against a specification", explain: compared + "Here: the contexts, for any sequence of writes and binds.",
		rules: rules(specsOf(4, "C02"), specsOf(8, "C04"))},
	"C04": {technique: "abstract interpretation against a specification, and typestate of contexts", explain: compared + "Here: Query, NamedQuery and String of each builder, and the contexts. Besides, no function tests, converts, compares or makes a context, so that none can tell which rendering is being produced.",
		rules: rules(specsOf(17, "C04", "C02"), func(r *Report) {
			r.noUse("context", "contexts are only written to, bound to and passed on", []string{repoModule, repoModule + "/stmt", repoModule + "/builder"}, contextUse)
		})},
	"C05": {technique: "abstract interpretation: ownership of memory, nothing retained", explain: explored + "Here: every exported function and method of builder and loukoum, from any state of the builder. None writes to memory it did not allocate, none appends to an array that may be shared, and none returns a slice or a map of its arguments. Package variables are only read.",
		rules: rules(func(r *Report) {
			r.noMutation("frame", r.w.exportedAPI(), true)
			r.packageState("variable")
		}, specsOf(3, "C17_clone", "C24_updateSet", "C17_insertSet"))},
	"C06": {technique: "abstract interpretation: ownership of memory", explain: explored + "Here: every method of a statement or builder that renders or asks whether it is empty. None writes to memory it did not allocate, and none starts goroutines or uses package state.",
		rules: rules(func(r *Report) {
			r.noMutation("rendering", r.w.renderers(), false)
			r.packageState("variable")
			r.noUse("source", "no clock, chance, address, goroutine or environment", r.w.modulePkgs(), nondeterminism)
		})},
	"C07": {technique: "abstract interpretation: order of maps; lint of nondeterminism", explain: explored + "Here: no text, value or part that a renderer emits depends on the order in which a map is iterated, unless it was sorted by a total order (decided from the comparator). No function refers to the clock, chance, addresses, goroutines or the environment.",
		rules: rules(func(r *Report) {
			r.mapOrder("order", r.w.renderers())
			r.noUse("source", "no clock, chance, address, goroutine or environment", r.w.modulePkgs(), nondeterminism)
			r.packageState("variable")
		}, specsOf(19, "C17", "C24_updateSet", "C09_set", "C09_pairsArray"))},
	"C03": {technique: "abstract interpretation against a specification", explain: compared + "Here: all that renders an identifier.",
		rules: rules(specsOf(49, "C03", "C10_identifier", "C09", "C08_distinctOn", "C08_from", "C08_join", "C08_onClause", "C08_groupBy", "C17_write", "C23_column", "C23_table", "C23_into", "C26_column", "C26_table", "C31_column", "C31_table"))},
	"C08": {technique: "abstract interpretation against a specification", explain: compared + "Here: the rendering of SELECT and of its clauses.",
		rules: rules(specsOf(42, "C08", "C13_select", "C24_select", "C29"))},
	"C09": {technique: "abstract interpretation against a specification", explain: compared + "Here: the rendering of INSERT, UPDATE, DELETE and of their clauses.",
		rules: rules(specsOf(56, "C09", "C08_where", "C17_write", "C17_insertSet", "C13_update", "C13_delete", "C24_insert", "C24_update", "C24_delete", "C25"))},
	"C10": {technique: "abstract interpretation against a specification", explain: compared + "Here: the rendering of expressions.",
		rules: rules(specsOf(127, "C10", "C11", "C12", "C20", "C08_onClause", "C08_infixOn"))},
	"C11": {technique: "abstract interpretation against a specification", explain: compared + "Here: the comparison methods, and the operators they yield.",
		rules: rules(specsOf(48, "C11", "C10_infix", "C10_logical", "C10_comparison", "C08_onClause", "C08_infixOn"))},
	"C12": {technique: "abstract interpretation against a specification", explain: compared + "Here: each position that takes a query as operand.",
		rules: rules(specsOf(61, "C12", "C19_expression", "C17_mergePair", "C17_mergeStrings", "C17_mergeMap", "C10_call", "C09_pairsArray", "C20_anys", "C20_expressions", "C20_row", "C20_list", "C13", "C11_infix", "C31_where"))},
	"C13": {technique: "abstract interpretation against a specification", explain: compared + "Here: the methods that add conditions, from any state of the builder.",
		rules: rules(specsOf(27, "C13", "C08_where", "C08_having", "C08_select", "C09_update", "C09_delete", "C10_infix", "C11_infix", "C11_onClause", "C31_where"))},
	"C14": {technique: "abstract interpretation against a specification", explain: compared + "Here: each method whose clause exists once, on a builder that has it.",
		rules: rules(specsOf(22, "C14"))},
	"C15": {technique: "simulation of the parser's SSA form by a grammar automaton", explain: simulated + "Here: ParseJoin against an automaton that reads one token at a time, MustParseJoin, the iterator of tokens, and the lexer.",
		rules: rules(specsOf(6, "C15", "C15sim", "C16", "C16sim"))},
	"C16": {technique: "simulation of the lexer's SSA form by a scanner automaton", explain: simulated + "Here: the lexer against an automaton that reads one character at a time, the table of keywords, and the iterator.",
		rules: rules(specsOf(4, "C16", "C16sim", "C15_tokens", "C15_is"))},
	"C17": {technique: "abstract interpretation against a specification", explain: compared + "Here: the container of pairs, and what fills and renders it.",
		rules: rules(specsOf(23, "C17", "C24_updateSet", "C24_updateUsing", "C09_set", "C09_pairsArray", "C09_insert", "C09_update"))},
	"C18": {technique: "abstract interpretation against a specification", explain: compared + "Here: the conversions to a number, and what renders it.",
		rules: rules(specsOf(12, "C18", "C24_selectLimit", "C24_selectOffset", "C08_limit", "C08_offset", "C08_select", "C31_limit", "C31_offset", "C26_limit", "C26_offset"))},
	"C19": {technique: "abstract interpretation against a specification", explain: compared + "Here: the conversion of values to expressions.",
		rules: rules(specsOf(7, "C19", "C10_value", "C10_raw", "C26_value"))},
	"C20": {technique: "abstract interpretation against a specification", explain: compared + "Here: the conversion of lists of each type.",
		rules: rules(specsOf(49, "C20", "C10_array", "C10_in", "C09_values", "C11_in", "C11_notIn", "C19_expression", "C24_insertValues", "C31_values"))},
	"C21": {technique: "dataflow: package variables are only read", explain: "Every package variable is followed through its uses outside of initialisation, across calls: it is never assigned, nothing reachable from it is written, and no reference to it is kept, returned or passed to code that might write through it.",
		rules: rules(func(r *Report) {
			r.packageState("variable")
			r.atLeast("package variables", 1)
		})},
	"C22": {technique: "abstract interpretation against a specification", explain: compared + "Here: the debug literals.",
		rules: rules(specsOf(6, "C22", "C04_raw"))},
	"C23": {technique: "abstract interpretation against a specification", explain: compared + "Here: the conversions of names.",
		rules: rules(specsOf(49, "C23", "C24", "C29"))},
	"C24": {technique: "abstract interpretation against a specification", explain: compared + "Here: the builder methods, from any state of the builder.",
		rules: rules(specsOf(57, "C24", "C13", "C17_insertSet", "C17_merge", "C29"))},
	"C25": {technique: "abstract interpretation against a specification", explain: compared + "Here: ON CONFLICT.",
		rules: rules(specsOf(22, "C25", "C09_onConflict", "C09_conflictTarget", "C09_doNothing", "C09_doUpdate", "C09_insert", "C24_insertOnConflict", "C26_doNothing", "C26_doUpdate", "C31_onConflict", "C31_conflict"))},
	"C26": {technique: "abstract interpretation against a specification", explain: compared + "Here: the functions of the facade.",
		rules: rules(specsOf(33, "C26"))},
	"C27": {technique: "abstract interpretation against a specification", explain: compared + "Here: comments, and where the statements render them.",
		rules: rules(specsOf(5, "C27", "C12_builder", "C12_expressionOfSelect", "C12_wrapper", "C19_expression", "C08_select", "C09_insert", "C09_update", "C09_delete", "C24_selectComment", "C24_insertComment", "C24_updateComment", "C24_deleteComment"))},
	"C28": {technique: "abstract interpretation against a specification", explain: compared + "Here: the predicates on builders.",
		rules: rules(specsOf(4, "C28"))},
	"C29": {technique: "abstract interpretation against a specification", explain: compared + "Here: the forms of Join.",
		rules: rules(specsOf(10, "C29", "C08_join", "C15_must", "C31_join", "C31_innerJoin", "C31_leftJoin", "C31_rightJoin"))},
	"C31": {technique: "abstract interpretation against a specification", explain: compared + "Here: the constructors of statements, and the methods that refine them.",
		rules: rules(specsOf(68, "C31", "C08_count", "C08_max", "C08_min", "C08_sum", "C08_order", "C10_call", "C09_table"))},
}
