SPECIFICATION MSpec
INVARIANTS
  ReadOnce ReadAll InPlace OutAll Dates TagsInForce MetaInForce
  OptionsGiven OptionsServed OptionsOnly Currencies PluginsGiven
  Reported Located OneEach Warned WarnedOver
CHECK_DEADLOCK FALSE
