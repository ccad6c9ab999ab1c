----------------------------- MODULE MC_Engine -----------------------------
(***************************************************************************)
(* All documents of a few lines.                                           *)
(***************************************************************************)
EXTENDS Engine

\* ''  'a'  'b c  '  '# a'  '* a'  '  b'  '1. a'  '> a'  '```'  '    a'  '---'  '==='  '|a|'  '|-|'  '[a]: b'  "'t'"  '* '  '>'  '+ b'  '2) c'  'a `b c`'  '[l](m) n'
Lines22 == {
  <<>>,
  <<97>>,
  <<98, 32, 99, 32, 32>>,
  <<35, 32, 97>>,
  <<42, 32, 97>>,
  <<32, 32, 98>>,
  <<49, 46, 32, 97>>,
  <<62, 32, 97>>,
  <<96, 96, 96>>,
  <<32, 32, 32, 32, 97>>,
  <<45, 45, 45>>,
  <<61, 61, 61>>,
  <<124, 97, 124>>,
  <<124, 45, 124>>,
  <<91, 97, 93, 58, 32, 98>>,
  <<39, 116, 39>>,
  <<42, 32>>,
  <<62>>,
  <<43, 32, 98>>,
  <<50, 41, 32, 99>>,
  <<97, 32, 96, 98, 32, 99, 96>>,
  <<91, 108, 93, 40, 109, 41, 32, 110>>}
\* (those that matter most)
Lines12 == {
  <<>>,
  <<97>>,
  <<35, 32, 97>>,
  <<42, 32, 97>>,
  <<32, 32, 98>>,
  <<62, 32, 97>>,
  <<96, 96, 96>>,
  <<32, 32, 32, 32, 97>>,
  <<45, 45, 45>>,
  <<61, 61, 61>>,
  <<124, 97, 124>>,
  <<91, 97, 93, 58, 32, 98>>}
Wide == {4, 1000000}
=============================================================================
