---------------------------- MODULE StoreConcMC ----------------------------
EXTENDS StoreConc
Ops1 == {<<"put", 0>>, <<"put", 1>>, <<"batch", 0>>, <<"rollback", 0>>, <<"del", 0>>, <<"get", 9>>, <<"get", 8>>, <<"get", 1>>, <<"id", 0>>}
Reads == {<<"get", 9>>, <<"get", 1>>}
\* two clients that write and one that reads
Narrow == {<<a, b>> : a \in {<<x, y>> : x \in {<<"put", 0>>, <<"put", 1>>, <<"batch", 0>>}, y \in {<<"put", 1>>, <<"del", 0>>, <<"rollback", 0>>, <<"id", 0>>}}, b \in {<<x>> : x \in Ops1}}
Wide == {<<a, b, c>> : a \in {<<x, y>> : x \in {<<"put", 0>>}, y \in {<<"put", 1>>, <<"del", 0>>}}, b \in {<<x>> : x \in {<<"put", 1>>, <<"rollback", 0>>}},
          c \in {<<<<"get", 9>>>>, <<<<"get", 1>>>>}}
=============================================================================
