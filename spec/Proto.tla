------------------------------- MODULE Proto -------------------------------
(* P30: attribute types and prototypes.  An attribute is a record [k, t, v,  *)
(* d, x, m, c] as in XesDoc: key, type, tagged value, datetime fields,       *)
(* extension, nested attributes, children.                                   *)
EXTENDS Temporal, FiniteSets
Types == {"discrete", "literal", "continuous", "boolean", "id", "list", "container", "timestamp"}
ClassOf(t) == CASE t = "discrete" -> "XAttributeDiscrete" [] t = "literal" -> "XAttributeLiteral" [] t = "continuous" -> "XAttributeContinuous"
                [] t = "boolean" -> "XAttributeBoolean" [] t = "id" -> "XAttributeID" [] t = "list" -> "XAttributeList"
                [] t = "container" -> "XAttributeContainer" [] t = "timestamp" -> "XAttributeTimestamp"
NameOf(t) == CASE t = "discrete" -> "DISCRETE" [] t = "literal" -> "LITERAL" [] t = "continuous" -> "CONTINUOUS" [] t = "boolean" -> "BOOLEAN"
               [] t = "id" -> "ID" [] t = "list" -> "LIST" [] t = "container" -> "CONTAINER" [] t = "timestamp" -> "TIMESTAMP"
Default(t) == CASE t = "discrete" -> "i0" [] t = "literal" -> "sUNKNOWN" [] t = "continuous" -> "f0.0" [] t = "boolean" -> "btrue" [] OTHER -> ""
Epoch == <<0, 0, 0>>
\* p is a prototype of a; used: the identities that exist
ProtoValue(a, p, used) ==
  CASE a.t \in {"list", "container"} -> p.v = a.v
    [] a.t = "timestamp" -> p.v = "d" /\ InstantOf(p.d) = Epoch
    [] a.t = "id" -> p.v \notin used
    [] OTHER -> p.v = Default(a.t)
SameButValue(a, p) == p.t = a.t /\ p.k = a.k /\ p.x = a.x /\ p.m = a.m /\ p.c = a.c
=============================================================================
