#!/usr/bin/env python3
"""Writes /verif/KNOWN_FINDINGS.json: repaired defects ("fixed: property=<id> <commit> <what failed>"), open findings."""
import json
import os

FIXED = """
C03 a23797d Activation + Activation returned the left operand itself
C03 169390c operations between two vectors stored as integers raised an error or lost the length
C04 f71e676 a file name already taken raised an error, and a lazily loaded vector overwrote a file
C01 be5de74 one-point vectors were misread with DTYPE = numpy array
C03 b225f23 containment of activation vectors was symmetric
C01 57603aa a lazily opened vector had no length
C05 7b0766f the length of a lazily opened vector was unknown after its file was read: profiling raised and corrupted it
C05 ac2e6c2 sizeof_compressed_* stayed -1 for vectors in files with FORCE_STAT
C08 27a2e60 conditions compared by hash: bounds -1 and -2 were equal
C09 5276663 the impossible flag stayed set after the bounds became consistent
C09 ff309f5 bounds given as text were truncated to integers
C09 823f799 condition setters accepted values of a wrong type, or raised halfway and left the condition changed
C03 0b95a25 the correlation of rules compared the numbers of features
C15 ce5c5a1 thresholds set on one rule were ignored
C11 d8b9b84 probabilities of text classes were compared as text
C14 4927c38 predicted text was truncated to 32 characters
C14 a0875c5 predicting on a data frame of one row gave a scalar
C19 0e9d32a unstacked regression predictions of a rule set
C20 9e9a668 votes of more than 255 rules wrapped around
C11 9e2bbd1 fitting a classification rule without active row raised
C11 b782c0f a class named "zero" was lost in stacked mode
C10 e1e1795 standard deviation of a single active row was NaN in stacked mode
C12 5f2c291 denominator of mae_norm
C20 7565755 stacked class predictions on the first row and on empty frames
C16 8c3ed08 evaluation that drops all rules left a stale rule set activation
C18 ad638f5 features of dropped rules stayed in the rule set
C18 a37d1cb stacked fit and eval returned dropped rules twice or missed some
C16 f009d46 stacked fit without data left the rule set without activation
C22 e5d2ff9 the test size was saved as the train size
C22 9b63b50 saved labels with spaces could not be loaded
C22 623d677 infinite bounds and attributes could not be loaded
C22 7f5515d coverage and criterion were loaded as text
C22 9a77174 rule names and feature positions were lost on loading
C16 a4d536e in-place addition shared state with the argument and missed stacked columns
C17 29d07af assigning rules left the old rule type
C17 a78e81b sorting with stacking on but no activations raised
C23 5d29c8c the right branch of a tree node widened an upper bound
C23 3d99f31 extraction relied on an attribute scikit-learn no longer has
C23 608c5d5 rules of inner nodes predicted their parent's value
C17 eceec04 membership of a rule in a rule set depended on how its bounds and features were written
C18 941911d a good rule was dropped together with a bad rule of equal condition
C15 5d93fb9 thresholds naming another attribute failed for numpy numbers
C18 5963da1 a rule set fit failed dropping rules while the set had an empty activation vector
C24 f2f7f35 criterion of a classification rule set failed when no row was predicted
C20 8d454d1 stacked predictions of text classes failed when the first rule has no prediction
C17 de912ea sorting failed half-way when the stack lacked the column of a rule
C17 5e961f6 a failing append without update left the rule set unable to update its activation
C22 bd62bfe loading rounded floats, turned integer classes into floats and dropped labels such as NA
C20 55af4c6 plain class predictions failed when a rule has no activation instead of ignoring it
C26 86446cc reading the activation of a rule or rule set after discarding it raised instead of giving None
C26 68e159f the coverage of a rule set was lost when its activation was discarded
C16 ff15eeb adding to a rule set without activation or stack left it with those of the addition only
C26 e4f23ef evaluating a classification rule set whose activation was discarded raised a TypeError
C27 3d60aa5 an attribute of the condition assigned through its rule was kept by the rule instead, and hid that of the condition
C26 b878c6c stacked_activations_available did not tell whether the stacked activations are there
C17 a94e5a2 features of rules without names could not be counted
C17 430188f a rule set could not be made of rules without features names
C21 f35ade5 the stacked z-score of a rule that is never activated was 0 instead of NaN
C13 4853c7e a refused stacked fit or evaluation left the rule set stacking its activations
C13 408c913 targets of another length than the data were accepted by rules and unstacked rule sets
C03 cf2e557 multi_logical_xor of a single vector returned an Activation when asked for an array
C01 bbdf8af the text forms of an activation vector (bit string, path) were refused
C10 31c6d60 computing the prediction or deviation of a rule whose activation was discarded took all targets for activated
"""
out = dict(
    findings=[],
    fixed=["fixed: property={} {} {}".format(*l.split(" ", 2)) for l in FIXED.strip().split("\n")])
json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN_FINDINGS.json"), "w"), indent=1)
