import case_split  # noqa: F401
import case_tree   # noqa: F401
import case_elf    # noqa: F401
import case_map    # noqa: F401
import case_cli    # noqa: F401
