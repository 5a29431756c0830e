exec(open("/verif/tool/seeds/common.py").read())
NP = "Narsese/Parser/NarseseParser.cpp"
SEEDS = [
 dict(id="b01-set-merge", prop="P05", needs="an intensional intersection of overlapping extensional sets",
  breaks="(|, {A, B}, {B, C}) is analysed as {B} instead of {A, B, C}",
  edits=[("Narsese/src/Compound.cpp", """    else if (connector_parent == Connector::IntensionalIntersection)
    {
        if (connector == Connector::ExtensionalSet)
        {
            std::vector<pTerms> terms_all;
            get_all_terms(compounds, terms_all);
            return Terms::union_(terms_all);""", """    else if (connector_parent == Connector::IntensionalIntersection)
    {
        if (connector == Connector::ExtensionalSet)
        {
            std::vector<pTerms> terms_all;
            get_all_terms(compounds, terms_all);
            return Terms::intersection(terms_all);""")],
  demo=CPP, files={"demo.cpp": HDR + 'int main() { auto t = parse("(|,{A,B},{B,C})."); ok(t->sentence->term->terms->size() == 3, "union of the sets"); return bad; }\n'}),
 dict(id="b02-instanceproperty", prop="P05", needs="a statement with the instance-property copula",
  breaks="<A {-] B> denotes <{A} --> {B}> instead of <{A} --> [B]>",
  edits=[(NP, """		auto instance = Compound::ExtensionalSet({subject});
		auto property = Compound::IntensionalSet({predicate});""", """		auto instance = Compound::ExtensionalSet({subject});
		auto property = Compound::ExtensionalSet({predicate});""")],
  demo=CPP, files={"demo.cpp": HDR + 'int main() { eq(term("<A {-] B>."), "<{A} --> [B]>"); return bad; }\n'}),
 dict(id="b03-goal-confidence", prop="P07", needs="a goal with a frequency but no confidence, and different default confidences of goals and judgements",
  breaks="the confidence left out of a goal is the default of judgements",
  edits=[(NP, "			desire->c = CONFIG::c_goal;", "			desire->c = CONFIG::c_judgement;")],
  demo=CPP, files={"demo.cpp": HDR + 'int main() { CONFIG::c_goal = 0.75; CONFIG::c_judgement = 0.5; auto t = parse("<A --> B>! %0.5%"); ok(t->sentence->truth->c == 0.75f, "default confidence of a goal"); return bad; }\n'}),
 dict(id="b04-truth-sentinel", prop="P07", needs="a judgement whose confidence is omitted and whose frequency is written",
  breaks="the sentinel for an omitted confidence is no longer recognised after it is rounded up, so the confidence stays negative",
  edits=[(NP, """	else
		c = -1.0;
	if (args.size() >= 3)
	{
		k =""", """	else
		c = -0.5;
	if (args.size() >= 3)
	{
		k =""")],
  demo=CPP, files={"demo.cpp": HDR + 'int main() { auto t = parse("<A --> B>. %0.5%"); ok(t->sentence->truth->c > 0.89f, "default confidence"); return bad; }\n'}),
 dict(id="b05-quest-durability", prop="P08", needs="a quest with a priority but no durability, and different default durabilities of quests and questions",
  breaks="the durability left out of a quest is the default of questions",
  edits=[(NP, "			budget.durability = CONFIG::d_quest;", "			budget.durability = CONFIG::d_question;")],
  demo=CPP, files={"demo.cpp": HDR + 'int main() { CONFIG::d_quest = 0.25; CONFIG::d_question = 0.5; auto t = parse("$0.5$ <A --> B>@"); ok(t->budget->durability == 0.25f, "default durability of a quest"); return bad; }\n'}),
 dict(id="b06-quality-max", prop="P08", needs="a judgement with written priority, no quality and a low frequency",
  breaks="the quality derived from a truth value ignores how certain a negative truth value is",
  edits=[("Narsese/include/Budget.h", "std::max(e, (1 - e) * 0.75)", "std::max(e, (1 - e) * 0.25)")],
  demo=CPP, files={"demo.cpp": HDR + 'int main() { auto t = parse("$0.5$ <A --> B>. %0.0;0.90%"); ok(t->budget->quality > 0.7f, "quality of a certain negative judgement"); return bad; }\n'}),
 dict(id="b07-future-boundary", prop="P09", needs="a stamp exactly one duration ahead of the clock",
  breaks="a sentence with the future mark reports the present tense",
  edits=[("Narsese/include/Sentence.h", "this->t_occurrence >= (signed int)(GLOBAL::time + CONFIG::temporal_duration)", "this->t_occurrence > (signed int)(GLOBAL::time + CONFIG::temporal_duration)")],
  demo=CPP, files={"demo.cpp": HDR + 'int main() { auto t = parse("<A --> B>. :/:"); ok(t->sentence->stamp->tense() == TENSE::Tense::Future, "future tense"); return bad; }\n'}),
 dict(id="b08-time-width", prop="P09", needs="a written occurrence time above 32767",
  breaks="large occurrence times are truncated to 16 bits",
  edits=[(NP, "	ret = new std::tuple(0, (new (signed int)(t)));", "	ret = new std::tuple(0, (new (signed int)((signed short)t)));")],
  demo=CPP, files={"demo.cpp": HDR + 'int main() { auto t = parse("<A --> B>. :!70000:"); ok(t->sentence->stamp->t_occurrence == 70000, "occurrence time"); return bad; }\n'}),
 dict(id="b09-quest-kind", prop="P06", needs="a quest with a tense mark",
  breaks="a quest with a tense becomes a question",
  edits=[(NP, """	auto &quest = *(new Quest(term, pStamp(stamp)));
	ret = &quest;""", """	if (!stamp->is_eternal)
		return (Sentence *)new Question(term, pStamp(stamp));
	auto &quest = *(new Quest(term, pStamp(stamp)));
	ret = &quest;""")],
  demo=CPP, files={"demo.cpp": HDR + 'int main() { auto t = parse("<A --> B>@ :|:"); ok(t->sentence->is_quest(), "kind of a tensed quest"); return bad; }\n'}),
]
