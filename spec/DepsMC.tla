------------------------------- MODULE DepsMC -------------------------------
EXTENDS Deps
\* every escape of every byte can be read back, alone and before any other byte
ASSUME \A a \in 1..255 : Unescape(Escape(<<a>>)) = <<a>>
ASSUME \A a, b \in {1, 7, 10, 14, 15, 16, 31, 47, 48, 55, 92, 97, 110, 127, 128, 255} : Unescape(Escape(<<a, b>>)) = <<a, b>>
P == {<<100, 45>>, <<100, 47, 10>>, <<92, 110>>}
=============================================================================
