exec(open("/verif/tool/seeds/common.py").read())
NP = "Narsese/Parser/NarseseParser.cpp"
COUNT = '''#include <new>
static long live = 0;
void *operator new(std::size_t n) { live++; return std::malloc(n ? n : 1); }
void operator delete(void *p) noexcept { if (p) { live--; std::free(p); } }
void operator delete(void *p, std::size_t) noexcept { if (p) { live--; std::free(p); } }
'''
def leak(sentence):
    return HDR + COUNT + 'int main() { for (int i = 0; i < 3; i++) parse("%s"); long a = live; for (int i = 0; i < 20; i++) parse("%s"); ok(live - a < 15, "objects stay behind"); return bad; }\n' % (sentence, sentence)
SEEDS = [
 dict(id="b11-action-order", prop="P01", needs="a compound with more than eight operands",
  breaks="operands beyond the eighth are handed to the action before the others",
  edits=[("Narsese/Parser/Parser.cpp", "        rets.push_back(ret);\n", "        if (rets.size() < 9)\n            rets.push_back(ret);\n        else\n            rets.insert(rets.begin() + 8, ret);\n")],
  demo=CPP, files={"demo.cpp": HDR + 'int main() { eq(term("<(*,a,b,c,d,e,f,g,h,i,j) --> r>."), "<(*, a, b, c, d, e, f, g, h, i, j) --> r>"); return bad; }\n'}),
 dict(id="b12-python-image", prop="P02", needs="using the name IntensionalImage from Python",
  breaks="the Python name of the intensional image denotes the extensional image",
  edits=[("Narsese/src/Connector.cpp", 'CONNECTOR::Connector::IntensionalImage, "\\\\")', 'CONNECTOR::Connector::ExtensionalImage, "\\\\")')],
  demo=PY, files={"demo.py": 'import narsese as n\nt = n.Compound(n.Connector.IntensionalImage, n.Term("a"), n.Term("b"))\nassert repr(t) == r"<Compound: (\\, a, b)>", repr(t)\n'}),
 dict(id="b13-tense-repr", prop="P02", needs="rendering a sentence of the past",
  breaks="past and future marks are swapped in renderings",
  edits=[("Narsese/include/Tense.h", 'string(":\\\\:"), string(":|:"), string(":/:")', 'string(":/:"), string(":|:"), string(":\\\\:")')],
  demo=CPP, files={"demo.cpp": HDR + 'int main() { auto s = show("<a --> b>. :\\\\:"); ok(s.find(":\\\\:") != std::string::npos, "mark of the past"); return bad; }\n'}),
 dict(id="b14-symmetrize", prop="P03", needs="the symmetric counterpart of the concurrent implication",
  breaks="the symmetric counterpart of =|> is </>",
  edits=[("Narsese/include/Copula.h", "PredictiveEquivalence, ConcurrentEquivalence, None, Equivalence", "PredictiveEquivalence, PredictiveEquivalence, None, Equivalence")],
  demo=CPP, files={"demo.cpp": HDR + 'int main() { ok(COPULA::symmetrize(COPULA::Copula::ConcurrentImplication) == COPULA::Copula::ConcurrentEquivalence, "counterpart of =|>"); return bad; }\n'}),
 dict(id="b15-image-operands", prop="P03", needs="an image with a single operand",
  breaks="an extensional image of one operand is accepted",
  edits=[("Narsese/include/Connector.h", "{true, true, true, true, true, true, true, true, true, false, false, false, true, true, false}", "{true, true, true, true, true, true, true, true, true, false, false, false, true, false, false}")],
  demo=CPP, files={"demo.cpp": HDR + 'int main() { ok(!CONNECTOR::check_valid(CONNECTOR::Connector::ExtensionalImage, 1), "image of one operand"); return bad; }\n'}),
 dict(id="b16-leak-horizon", prop="P04", needs="a truth value with an evidential horizon",
  breaks="the number of the evidential horizon is never freed",
  edits=[(NP, "		k = *(double *)args[2];\n		delete (double *)args[2];\n", "		k = *(double *)args[2];\n")],
  demo=CPP, files={"demo.cpp": leak("<a --> b>. %1.0;0.9;1%")}),
 dict(id="b17-stale-word", prop="P04", needs="an operation whose name is already known",
  breaks="the name of an operation is read after it has been freed",
  edits=[(NP, """	auto str_op = "^" + str;
	pTerm *term;""", """	auto str_op = "^" + str;
	delete &str;
	pTerm *term;"""), (NP, """		INTERPRETER::interpreter.put((*term)->hash_value, str_op, (void *)term);
	}

	delete &str;
""", """		INTERPRETER::interpreter.put((*term)->hash_value, "^" + str, (void *)term);
	}

""")],
  demo=CPP, files={"demo.cpp": HDR + '''#include <cstring>
#include <new>
void *operator new(std::size_t n) { return std::malloc(n ? n : 1); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t n) noexcept { if (p) std::memset(p, n == sizeof(std::string) ? 0 : 0, n); std::free(p); }
int main() { eq(term("(^go, a)."), "(^go, a)"); return bad; }
'''}),
 dict(id="b18-var-index", prop="P10", needs="a sentence with two dependent variables and an independent one",
  breaks="dependent variables are numbered in the table of independent ones",
  edits=[(NP, """	auto name = VARIABLE::Repr[VARIABLE::VarPrefix::Dependent] + *word;
	delete word;
	auto &var = *(new pTerm(new Variable(VARIABLE::VarPrefix::Dependent, name)));""", """	auto name = VARIABLE::Repr[VARIABLE::VarPrefix::Dependent] + word->substr(0, 8);
	delete word;
	auto &var = *(new pTerm(new Variable(VARIABLE::VarPrefix::Dependent, name)));""")],
  demo=CPP, files={"demo.cpp": HDR + 'int main() { auto t = parse("(*, #position1, #position2)."); auto &v = t->sentence->term->terms->terms_ordered; ok(*v[0]->_vars_dependent->indices[0] != *v[1]->_vars_dependent->indices[0], "different names, different variables"); return bad; }\n'}),
 dict(id="b19-clone-query", prop="P12", needs="cloning a statement that contains a query variable",
  breaks="the clone of a statement forgets that it contains query variables",
  edits=[("Narsese/include/Statement.inl", "        this->has_qvar = other.has_qvar;\n        this->is_var = other.is_var;", "        this->has_qvar = other.is_qvar;\n        this->is_var = other.is_var;")],
  demo=CPP, files={"demo.cpp": HDR + 'int main() { auto t = parse("<?x --> a>?"); auto c = TERM::Term::clone(t->sentence->term); ok(c->has_qvar, "query variable of a clone"); return bad; }\n'}),
 dict(id="b20-complexity", prop="P11", needs="a compound of statements",
  breaks="the complexity of a compound counts a higher-order component once",
  edits=[("Narsese/src/Compound.cpp", "{ return sum + term->complexity; }", "{ return sum + (term->is_higher_order ? 1 : term->complexity); }")],
  demo=CPP, files={"demo.cpp": HDR + 'int main() { auto t = parse("(&&, <<a --> b> ==> <c --> d>>, e)."); ok(t->sentence->term->complexity == 8, "complexity"); return bad; }\n'}),
 dict(id="b21-operation-flag", prop="P11", needs="an operation call with variables, cloned",
  breaks="the clone of an operation call is no operation",
  edits=[("Narsese/include/Statement.inl", "        this->is_operation = other.is_operation;\n", "        this->is_operation = other.is_operation && !other.has_var;\n")],
  demo=CPP, files={"demo.cpp": HDR + 'int main() { auto t = parse("(^go, $x)."); auto c = TERM::Term::clone(t->sentence->term); ok(c->is_operation, "operation"); return bad; }\n'}),
 dict(id="b22-order-size", prop="P13", needs="two compounds with equal hashes of different size",
  breaks="a smaller compound both precedes and follows a larger one of the same hash",
  edits=[("Narsese/include/Term.inl", "            if (term1.terms->size() != term2.terms->size())\n                return term1.terms->size() < term2.terms->size();", "            if (term1.terms->size() != term2.terms->size())\n                return term1.terms->size() != term2.terms->size();")],
  demo=CPP, files={"demo.cpp": HDR + '''int main() {
 auto a = parse("(*, $x, $y).")->sentence->term, b = parse("(*, $x, $y, $z).")->sentence->term;
 b->hash_value = a->hash_value = 77;
 ok(!((*a < *b) && (*b < *a)), "asymmetric"); return bad; }
'''}),
 dict(id="b23-difference-all", prop="P14", needs="the difference of more than two collections",
  breaks="only the last collection is subtracted",
  edits=[("Narsese/include/Term.h", "                    difference.begin(), difference.end(),\n", "                    (*terms_all.begin())->begin(), (*terms_all.begin())->end(),\n")],
  demo=CPP, files={"demo.cpp": HDR + '''int main() { auto a = TERM::Term::create("a"), b = TERM::Term::create("b"), c = TERM::Term::create("c");
 auto r = TERM::Terms::difference({TERM::pTerms(new TERM::Terms({a, b, c}, true)), TERM::pTerms(new TERM::Terms({a}, true)), TERM::pTerms(new TERM::Terms({b}, true))});
 ok(r->size() == 1, "difference of three"); return bad; }
'''}),
 dict(id="b24-iterator-minus", prop="P14", needs="going back more than one step in a set",
  breaks="an iterator over an unordered collection goes back one step at most",
  edits=[("Narsese/include/Term.h", "                std::advance(newIt, -n);\n", "                std::advance(newIt, n > 0 ? -1 : -n);\n")],
  demo=CPP, files={"demo.cpp": HDR + '''int main() { auto t = parse("{a, b, c}."); auto &s = *t->sentence->term->terms; ok(s.end() - 3 == s.begin(), "three steps back"); return bad; }
'''}),
 dict(id="b25-negation-flat", prop="P15", needs="a negation of a negation",
  breaks="nested negations are flattened",
  edits=[("Narsese/include/Connector.h", "{true, true, false, true, true, true, true, false, false, false, true, true, false, false, false};\n", "{true, true, false, true, true, true, true, false, false, true, true, true, false, false, false};\n")],
  demo=CPP, files={"demo.cpp": HDR + 'int main() { eq(term("(--, (--, a))."), "(--, (--, a))"); return bad; }\n'}),
 dict(id="b26-difference-parent", prop="P15", needs="a sequence nested in another whose first component is nested",
  breaks="a sequence at the end of another sequence is not flattened",
  edits=[("Narsese/src/Compound.cpp", "            if (term->is_compound() && term->connector == connector_parent)\n            {", "            if (term->is_compound() && term->connector == connector_parent && (expanded_terms->size() + 1 < terms->size() || !expanded_terms->size()))\n            {")],
  demo=CPP, files={"demo.cpp": HDR + 'int main() { eq(term("(&/, a, (&/, b, c))."), "(&/, a, b, c)"); return bad; }\n'}),
 dict(id="b27-count", prop="P16", needs="removing an entry by name and adding another with the same key",
  breaks="the count of an entry removed by its name survives",
  edits=[("Interpreter/include/Interpreter.hpp", "                if (check(key))\n                {\n                    dictionary.erase(key);\n                    count.erase(key);\n", "                if (check(key))\n                {\n                    dictionary.erase(key);\n")],
  demo=CPP, files={"demo.cpp": HDR + '''int main() { INTERPRETER::Interpreter i; auto t = TERM::Term::create(); i.put(t->hash_value, "w", new TERM::pTerm(t)); i.remove_by_name("w"); ok(i.check_count(t->hash_value) == 0, "count of a removed entry"); return bad; }
'''}),
 dict(id="b28-intern", prop="P16", needs="an operation and a word with the same name",
  breaks="an operation whose bare name is known as a word denotes the word",
  edits=[(NP, "	if (INTERPRETER::interpreter.check_by_name(str_op) > 0)", "	if (INTERPRETER::interpreter.check_by_name(str) > 0 && !INTERPRETER::interpreter.check_by_name(str_op))\n		str_op = str;\n	if (INTERPRETER::interpreter.check_by_name(str_op) > 0)")],
  demo=CPP, files={"demo.cpp": HDR + 'int main() { auto keep = parse("go."); ok(parse("<(*, a) --> ^go>.")->sentence->term->predicate->is_operation, "the operation"); return bad; }\n'}),
 dict(id="b30-render-goal", prop="P17", needs="rendering a goal with different frequency and confidence in colour",
  breaks="coloured goals show the frequency twice",
  edits=[("Interpreter/src/Interpreter.cpp", """            auto &truth = *sentence.truth;
            str_truth = fmt::format("{0}{1}{3}{2}{0}", fmt::format(color_percent, "%"), fmt::format(color_number, "{:.3f}", truth.f), fmt::format(color_number, "{:.3f}", truth.c)""", """            auto &truth = *sentence.truth;
            str_truth = fmt::format("{0}{1}{3}{2}{0}", fmt::format(color_percent, "%"), fmt::format(color_number, "{:.3f}", truth.f), fmt::format(color_number, "{:.3f}", truth.f)""")],
  demo=CPP, files={"demo.cpp": HDR + 'int main() { auto t = parse("a! %0.25;0.5%"); auto s = INTERPRETER::interpreter.interpret(*t, true); ok(s.find("0.500") != std::string::npos, "confidence"); return bad; }\n'}),
 dict(id="b31-interleave", prop="P18", needs="merging a base with a larger one",
  breaks="evidence of the longer base beyond the length of the shorter one is lost",
  edits=[("Narsese/include/Evidence.h", "                if (it2 != base2._set->end())\n                {", "                if (it2 == base2._set->end() && base2.size() > 3)\n                    break;\n                if (it2 != base2._set->end())\n                {")],
  demo=CPP, files={"demo.cpp": HDR + '''int main() { using EVIDENCE::Base; Base a(std::set<size_t>{1, 2, 3, 4, 5, 6, 7}), b(std::set<size_t>{11, 12, 13, 14}); auto r = Base::interleave(a, b); ok(r->size() == 11, "all evidence"); return bad; }
'''}),
 dict(id="b32-input-id", prop="P18", needs="more than 255 sentences",
  breaks="the identity of inputs wraps after 256 sentences, so that later inputs share evidence with earlier ones",
  edits=[("Global.h", "        _input_id += 1;", "        _input_id = (_input_id + 1) % 256;")],
  demo=CPP, files={"demo.cpp": HDR + '''int main() { auto a = parse("a."); for (int i = 0; i < 600; i++) { auto b = parse("b."); if (a->sentence->stamp->evidential_base->is_overlaped(*b->sentence->stamp->evidential_base)) { ok(false, "unrelated inputs share evidence"); break; } } return bad; }
'''}),
 dict(id="b33-query-names", prop="P19", needs="a sentence with query variables after another one with query variables",
  breaks="query variables are numbered on from the previous sentence",
  edits=[("Narsese/Parser/NarseseParser.h", "			names_qvar.clear();\n", "			if (names_qvar.size() > 2)\n				names_qvar.clear();\n")],
  demo=CPP, files={"demo.cpp": HDR + 'int main() { parse("<?x --> ?y>?"); eq(term("<?y --> ?x>?"), "<?0 --> ?1>"); return bad; }\n'}),
 dict(id="b35-python-terms", prop="P21", needs="reading the components of a statement from Python",
  breaks="the components of a statement are its subject twice",
  edits=[("Narsese/src/Term.cpp", "std::vector<pTerm>{self->subject, self->predicate}", "std::vector<pTerm>{self->subject, self->copula == Copula::Similarity ? self->subject : self->predicate}")],
  demo=PY, files={"demo.py": 'import narsese as n\nt = n.parse("<a <-> b>.").term\nassert [repr(x) for x in t.terms] == [repr(t.subject), repr(t.predicate)]\n'}),
 dict(id="b36-comparison", prop="P22", needs="comparison of truth values with different frequencies",
  breaks="comparison weighs with the conjunction of the frequencies",
  edits=[("NAL/Functions/include/TruthFunctions.h", "And(Or(truth1->f, truth2->f), truth1->c, truth2->c)", "And(Or(truth1->f, truth1->f), truth1->c, truth2->c)")],
  demo=CPP, files={"demo.cpp": HDR + '#include "NAL/Functions/include/TruthFunctions.h"\nint main() { using TRUTH::Truth; auto r = TRUTH_FUNCTIONS::truth_comparison(Truth::create(0.0f, 0.5f), Truth::create(1.0f, 0.5f)); ok(r->c > 0.1, "evidence of a comparison"); return bad; }\n'}),
 dict(id="b37-release-kind", prop="P23", needs="a dated question",
  breaks="the number of a question's tense mark is released as a string",
  edits=[(NP, 'void *NARSESEPARSER::question(Parser *self, const Args &args)\n{\n\tvoid *ret;\n\tauto n_args = args.size();\n\tpTerm term = get(args[0]);\n\tStamp *stamp = nullptr;\n\tfor (auto it = args.begin() + 1; it != args.end(); it++)\n\t{\n\t\tauto &arg = *it;\n\t\tvoid *ptr;\n\t\tint mark;\n\n\t\tstd::tie(mark, ptr) = *(std::tuple<int, void *> *)arg;\n\t\tdelete (std::tuple<int, void *> *)arg;\n\t\tif (mark == 0) // tense\n\t\t{\n\t\t\tauto time = *(signed int *)ptr;\n\t\t\tdelete (signed int *)ptr;', 'void *NARSESEPARSER::question(Parser *self, const Args &args)\n{\n\tvoid *ret;\n\tauto n_args = args.size();\n\tpTerm term = get(args[0]);\n\tStamp *stamp = nullptr;\n\tfor (auto it = args.begin() + 1; it != args.end(); it++)\n\t{\n\t\tauto &arg = *it;\n\t\tvoid *ptr;\n\t\tint mark;\n\n\t\tstd::tie(mark, ptr) = *(std::tuple<int, void *> *)arg;\n\t\tdelete (std::tuple<int, void *> *)arg;\n\t\tif (mark == 0) // tense\n\t\t{\n\t\t\tauto time = *(signed int *)ptr;\n\t\t\tdelete (std::tuple<int, signed int> *)ptr;')],
  demo=ASAN, files={"demo.cpp": HDR + 'int main() { parse("<a --> b>? :|:"); return bad; }\n'}),
 dict(id="b38-positions", prop="P24", needs="a term with variables three levels down",
  breaks="positions deeper than two levels lose their middle part",
  edits=[("utils/IndexVar.cpp", """            std::vector<int> position = {(int)(bias_pos)};
            position.insert(position.end(), pos.begin(), pos.end());
            positions.push_back(position);
        }
        this->""", """            std::vector<int> position = {(int)(bias_pos)};
            position.insert(position.end(), pos.size() > 2 ? pos.begin() + 1 : pos.begin(), pos.end());
            positions.push_back(position);
        }
        this->""")],
  demo=CPP, files={"demo.cpp": HDR + 'int main() { auto t = parse("(*, (*, (*, (*, a, $x), b), c), d)."); ok(t->sentence->term->_vars_independent->positions[0].size() == 4, "position"); return bad; }\n'}),
 dict(id="b39-stale-normal", prop="P24", needs="adding a variable to a part after the normal form was computed",
  breaks="the cached normal form of the part survives a new variable",
  edits=[("utils/IndexVar.cpp", """        idxvar = idxvar->successors[pos].get();
        idxvar->_is_hashed = false;
        idxvar->_indices_normalized = nullptr;""", """        idxvar = idxvar->successors[pos].get();
        idxvar->_is_hashed = false;
        if (idxvar->indices.empty())
            idxvar->_indices_normalized = nullptr;""")],
  demo=CPP, files={"demo.cpp": HDR + '''int main() { using INDEXVAR::IndexVar; auto f = IndexVar::create(), s = IndexVar::create(); IndexVar::connect(f, s); f->add(1, {0}); s->normalize(); f->add(2, {0}); ok(s->indices_normalized()->size() == 2, "normal form"); return bad; }
'''}),
]
