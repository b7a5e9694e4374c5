SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Height = 1
 Fan = 2
 Budget <- B2
 MaxNodes = 14
 MaxTrees = 2
 Inc = "relaxed"
 Dec = "release"
 Uniq = "acquire"
 Zero = "acquire"
 Variant = ""
INVARIANTS NoError Alone Alive Counted CopiesPath CopiesShared
CHECK_DEADLOCK FALSE
VIEW StateView
