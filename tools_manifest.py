import json
N={
'C01':('proof','CBMC contracts on every converter function (frame, accounting, memory), loop contract of the conversion loop; runtime form of the same contracts finds failing inputs',
 'Decoder/encoder/flush/reset functions of all encodings are cut out of the current tree and each contract clause is discharged for all inputs; groups that exceed the tier budget are listed as undecided in the evidence and covered only by the bounded run. Trusted: gcc -E, the slicer, goto-cc, CBMC, contracts.'),
'C02':('proof','CBMC relational contracts (redo, prefix, progress, size) on every converter function plus the conversion-loop contract; runtime form on the real functions',
 'Prefix/redo/size lemmas for all inputs per converter; decoders that loop are handled by induction over iterations, with no bound. Groups beyond the tier budget are listed as undecided.'),
'C03':('proof','CBMC round-trip obligations; exhaustive execution of the joint encoder/decoder state space',
 'Round-trip lemmas of character-set pairs and an inductive joint invariant per encoding, all 32-bit characters; groups beyond the tier budget, UTF-7, CP1255, CP1258, TCVN and (quick) ISO-2022-JP-2/-JP-3/-CN-EXT by execution of all joint states x all code points only.'),
'C04':('proof','CBMC equivalence of the real decoders and encoders with a Unicode specification; runtime comparison',
 'UTF-7 bounded (runtime comparison only); decoders that skip byte order marks bounded in the number of marks per call (stated).'),
'C05':('proof','CBMC contracts of the 8-bit converters against the published tables; runtime comparison',
 'Composing encodings CP1255/CP1258/TCVN by execution only.'),
'C06':('proof','CBMC contract of the conversion loop over abstract converters that satisfy the converter contracts; whole-call runs against a specification',
 'Converter functions abstracted by their contracts (C01/C02).'),
'C07':('proof','CBMC contract of the reset function over abstract converters; whole-call runs against a specification','Converter functions abstracted by their contracts.'),
'C08':('proof','CBMC contracts of lookup and canonicalization; exhaustive execution of code page lookup; runtime comparison with the list of names','Known findings: stale generated alias table.'),
'C09':('proof','CBMC contracts of the one-shot functions over the contract of reiconv_iconv; whole-call runs against a specification','reiconv_iconv abstracted by its contract.'),
'C10':('proof','CBMC contracts of the open functions; exhaustive execution of all pairs','malloc abstracted by its contract.'),
'C11':('proof','CBMC frame conditions of the converters and the loop, absence of writable static data; interleaved whole-call runs','Freedom from shared mutable state implies independence of descriptors under any schedule.'),
'C14':('proof','CBMC output-range contracts of the 7-bit encoders; exhaustive execution of the joint encoder/decoder states','Inductive joint invariant over leaf contracts (decided by C03). UTF-7 joint states unbounded: sampled.'),
}
m={'version':1,'setup_cmd':'true','checks':[],'not_applicable':[
 {'property':'C12','reason':'the wrapper (lib/reiconv.cpp) is C++ with std::string, std::filesystem-style streams and exceptions; CBMC\'s C++ front end does not accept the standard headers, and no other deductive verifier for C++ is installed, so no contract on the real code can be discharged'},
 {'property':'C13','reason':'the answer comes from setlocale/nl_langinfo or the platform\'s locale files, i.e. from the environment; the code only passes it through, so a contract would merely restate the assumed contract of the C library'}],
 'notes':'One entry point: bin/check <property> <tier>. All checks extract the functions from /repo\'s current tree on every run. See DESIGN.md.'}
for p,(lv,t,n) in N.items():
    m['checks'].append({'property':p,'quick_cmd':'bin/check %s quick'%p,'thorough_cmd':'bin/check %s thorough'%p,'technique':t,'level':lv,'level_note':n,'evidence_file':'evidence/%s.json'%p})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
