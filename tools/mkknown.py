"""Write known_findings.json: no recorded finding left, the repaired defects."""
import json, os
FIXED = [
 ('C23', '7831263', 'the set of declared values was changed while being iterated over (values needing a conversion)'),
 ('C10', 'c8e9575', 'an only-clause on an attribute without value crashed or selected the class according to the report mode'),
 ('C07', '1b97869', 'a substituted text holding backslashes was taken for a regular expression template'),
 ('C13', '287fd3a', 'captured glob texts were regular expression templates; protected strings were expanded (C12)'),
 ('C08', '5be1bc9', 'cyclic references looped or an acyclic chain was refused according to the number of attributes'),
 ('C03', '8d461be', 'unhashable values and cyclic remap tables crashed or hung the resolution (C08)'),
 ('C03', '4316b7d', 'a value which is not a class given for a class-valued attribute raised TypeError (C09)'),
 ('C09', '9c8e34a', 'weak attributes could not be undefined, None nor given an already weak value (C03, C20)'),
 ('C09', '434a2a1', 'deleting an attribute of an object removed the descriptor for every instance (C16)'),
 ('C20', '7f931aa', 'undefined optional attributes were not undefined any more after unpickling'),
 ('C05', 'ce0de28', 'the fast-track index hid suitable classes and showed discarded ones'),
 ('C24', '49f3f80', 'equal protected dictionaries or sets had different hashes'),
 ('C22', '96eaaa3', 'report views were stale after additions, and cleared or reduced logs lost their length limit'),
 ('C15', '035cb74', 'comparing a level with an unknown name raised an error'),
 ('C14', '5a7c6a6', 'an insertion next to an unsuitable reference left the set half changed'),
 ('C23', '4a42180', 'an attribute named as the actual tag (lower case, singular) of the collector was accepted'),
 ('C23', 'f4d8419', 'a class whose definition is refused remained in the collectors registered before'),
 ('C21', '63b0b18', 'a value that could not be converted was also reported as out of range'),
 ('C10', '9e9bd9f', 'an only entry did not find a global default whose name has capital letters (C26)'),
 ('C05', 'de32081', 'a fast-track key equal to an indexed value but of another type (1 and True) missed its conversion'),
 ('C20', 'c10d3b8', 'the values carried by a clone were remapped and defaulted once more'),
 ('C16', '5906c70', 'a weak attribute whose object has disappeared crashed the searches (C17, C19, C03)'),
 ('C27', 'fbc8e30', 'the documentation order prevailed over the visibility level'),
 ('C27', '12702c9', 'a visibility level was separated from its set when an attribute is inherited (C11)'),
 ('C08', '2bf7597', 'a reference formed with a substituted text was taken for a cycle (C07)'),
 ('C07', 'de07711', 'a format which can not be applied in a reference raised KeyError, TypeError...'),
 ('C08', 'aa9c215', 'references formed with substituted texts could loop for ever'),
 ('C12', 'b20a463', 'a dictionary keyed by an entry still to be expanded raised KeyError'),
 ('C10', 'd98ffe6', 'a bare text in an only clause was compared character by character'),
 ('C20', 'ece2b13', 'a shallow copy of an object shared its attributes with the original (C09)'),
 ('C25', 'cca936e', 'build_attrmap with a bare attribute name listed the attributes whose name is a piece of it'),
 ('C25', '1358307', 'filtering, discarding or resetting with an unknown priority level took it as the level NONE'),
 ('C29', '01bc055', 'a footprint with a single decorator could not be documented'),
 ('C11', '8a607a9', "merging an empty footprint without default entries raised KeyError: 'only'"),
 ('C20', '0cee384', 'the values of attributes of several types could not be listed'),
 ('C22', '809ff50', 'iterating over the last entry of a report gave the last reason of a class for all its attributes'),
 ('C22', '182f9c9', 'some of the selected values were not put first in a sorted report'),
 ('C22', '45e3359', 'a missing ordering key of a sorted report raised TypeError'),
 ('C25', 'dfc19c9', 'the collected values of an attribute could not be listed when some of them can not be compared'),
 ('C03', '39e65cc', 'the classes listed as values or outcast of a class-valued attribute were instantiated: no class was accepted or refused'),
 ('C13', '6405be6', 'glob patterns with brackets or a trailing newline did not select the files they describe'),
]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'known_findings.json'), 'w') as f:
    json.dump({'known': [], 'fixed': ['fixed: property=%s %s %s' % x for x in FIXED]}, f, indent=1)
    f.write('\n')
