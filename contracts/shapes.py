"""Shapes of the data structures of esp-idf-size."""
from spec import BOOL, INT, L, M, Null, R, STR

SYMBOL = dict(abbrev_name=STR, size=INT, size_diff=INT)
OBJECT = dict(abbrev_name=STR, size=INT, size_diff=INT, symbols=M(R(**SYMBOL)))
ARCHIVE = dict(abbrev_name=STR, size=INT, size_diff=INT, object_files=M(R(**OBJECT)))
SECTION = dict(abbrev_name=STR, size=INT, size_diff=INT, archives=M(R(**ARCHIVE)))
TYPE = dict(size=INT, size_diff=INT, used=INT, used_diff=INT, sections=M(R(**SECTION)))
MEMMAP = R(version=STR, target=STR, target_diff=STR, project_path=STR, project_path_diff=STR, image_size=INT, image_size_diff=INT,
           memory_types=M(R(**TYPE)))
SUMMARY = M(R(abbrev_name=STR, size=INT, size_diff=INT,
              memory_types=M(R(size=INT, size_diff=INT, sections=M(R(abbrev_name=STR, size=INT, size_diff=INT))))))
