SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b"}
  Depth = 4
INVARIANTS LiteralOK OneLevelOK PrefixOK ParentOK DownOK WidenOK AllOK
CHECK_DEADLOCK FALSE
