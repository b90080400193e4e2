----------------------------- MODULE LexiconDef -----------------------------
(* Lexicons and the beliefs they state.                                      *)
(*                                                                           *)
(* A lexicon is a sequence of synsets [name, pos, lemmas, rels]; lemmas are  *)
(* [root, rels]. The relations of a synset are pairs <<relation, synset>>,   *)
(* those of a lemma are triples <<relation, synset, lemma>>, by number.      *)
EXTENDS Integers, Sequences, FiniteSets
Rng(f) == {f[x] : x \in DOMAIN f}

SynsetRels == {"hypernym", "instance_hypernym", "member_meronym", "attribute", "entailment", "cause", "also_see", "verb_group", "similar_to"}
LemmaRels == {"antonym", "pertainym", "derivationally_related_form"}

PosSymbol(p) == CASE p = "n" -> "noun/gb" [] p = "v" -> "verb/gb" [] p \in {"a", "s"} -> "adjective/gb" [] p = "r" -> "adverb/gb"
Gb(r) == r \o "/gb"

\* lemma i of synset s; its root is its name with the slashes, which separate the parts of symbols, replaced
Symbol(lex, s, i) == lex[s].lemmas[i].root \o "/wn." \o lex[s].name

FactsOf(lex, s) ==
  LET first == Symbol(lex, s, 1) IN
       {<<"pos/gb", first, PosSymbol(lex[s].pos)>>}
  \cup {<<"synonym/gb", first, Symbol(lex, s, i)>> : i \in 2..Len(lex[s].lemmas)}
  \cup {<<Gb(r[1]), first, Symbol(lex, r[2], 1)>> : r \in {x \in Rng(lex[s].rels) : x[1] \in SynsetRels}}
  \cup UNION {{<<Gb(r[1]), Symbol(lex, s, i), Symbol(lex, r[2], r[3])>> : r \in {x \in Rng(lex[s].lemmas[i].rels) : x[1] \in LemmaRels}}
              : i \in 1..Len(lex[s].lemmas)}

Facts(lex) == UNION {FactsOf(lex, s) : s \in 1..Len(lex)}

Wordnet == "wordnet/gb"

\* a store is [facts |-> set, beliefs |-> set of <<fact, source>>]
Import(lex, st) == [facts |-> st.facts \cup Facts(lex), beliefs |-> st.beliefs \cup {<<f, Wordnet>> : f \in Facts(lex)}]
StoreOf(o) == [facts |-> Rng(o.facts), beliefs |-> {<<b.fact, b.src>> : b \in Rng(o.beliefs)}]

\* all symbols that stand for a lemma with this name
SymbolsNamed(lex, n) == UNION {{Symbol(lex, s, i) : i \in {j \in 1..Len(lex[s].lemmas) : lex[s].lemmas[j].root = n}} : s \in 1..Len(lex)}
=============================================================================
