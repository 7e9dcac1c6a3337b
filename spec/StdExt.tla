------------------------------- MODULE StdExt -------------------------------
(* P33: the definitions of the standard extensions.  State: which of them    *)
(* have been obtained so far; the manager obtains all.  Names are encoded.   *)
EXTENDS Integers, Sequences, FiniteSets, Clauses
Ext == [
  concept |-> [name |-> "Concept", uri |-> "http://www.xes-standard.org/concept.xesext"],
  cost |-> [name |-> "Cost", uri |-> "http://www.xes-standard.org/cost.xesext"],
  identity |-> [name |-> "Identity", uri |-> "http://www.xes-standard.org/identity.xesext"],
  lifecycle |-> [name |-> "Lifecycle", uri |-> "http://www.xes-standard.org/lifecycle.xesext"],
  micro |-> [name |-> "Micro", uri |-> "http://www.xes-standard.org/micro.xesext"],
  org |-> [name |-> "Organizational", uri |-> "http://www.xes-standard.org/org.xesext"],
  semantic |-> [name |-> "Semantic", uri |-> "http://www.xes-standard.org/semantic.xesext"],
  time |-> [name |-> "Time", uri |-> "http://www.xes-standard.org/time.xesext"] ]
Prefixes == DOMAIN Ext
Levels == {"log", "trace", "event", "meta"}
\* initial values: tagged; an identity (u) may be any
Attr(x, k, t, v, at) == [x |-> x, k |-> k, t |-> t, v |-> v, at |-> at]
Attrs == {
  Attr("concept", "concept:instance", "literal", "sUNKNOWN", {"event"}),
  Attr("concept", "concept:name", "literal", "sUNKNOWN", {"log", "trace", "event"}),
  Attr("cost", "cost:amount", "continuous", "f0.0", {"event"}),
  Attr("cost", "cost:currency", "literal", "sUNKNOWN", {"trace", "event"}),
  Attr("cost", "cost:driver", "literal", "sUNKNOWN", {"event"}),
  Attr("cost", "cost:total", "continuous", "f0.0", {"trace", "event"}),
  Attr("cost", "cost:type", "literal", "sUNKNOWN", {"event"}),
  Attr("identity", "identity:id", "id", "u", {"log", "trace", "event", "meta"}),
  Attr("lifecycle", "lifecycle:model", "literal", "sstandard", {"log"}),
  Attr("lifecycle", "lifecycle:transition", "literal", "scomplete", {"event"}),
  Attr("micro", "micro:length", "discrete", "i-1", {"event"}),
  Attr("micro", "micro:level", "discrete", "i-1", {"event"}),
  Attr("micro", "micro:parentId", "id", "u", {"event"}),
  Attr("org", "org:group", "literal", "sUNKNOWN", {"event"}),
  Attr("org", "org:resource", "literal", "sUNKNOWN", {"event"}),
  Attr("org", "org:role", "literal", "sUNKNOWN", {"event"}),
  Attr("semantic", "semantic:modelReference", "literal", "sUNKNOWN", {"log", "trace", "event", "meta"}),
  Attr("time", "time:timestamp", "timestamp", "d", {"event"}) }
\* language, key, name
Names == {
  <<"EN", "concept:instance", "Instance">>,
  <<"DE", "concept:instance", "Instanz">>,
  <<"FR", "concept:instance", "Entit%e9;">>,
  <<"ES", "concept:instance", "Instancia">>,
  <<"PT", "concept:instance", "Inst%e2;ncia">>,
  <<"EN", "concept:name", "Name">>,
  <<"DE", "concept:name", "Name">>,
  <<"FR", "concept:name", "Appellation">>,
  <<"ES", "concept:name", "Nombre">>,
  <<"PT", "concept:name", "Nome">>,
  <<"EN", "cost:amount", "Cost Amount">>,
  <<"EN", "cost:currency", "Currency of Cost">>,
  <<"EN", "cost:driver", "Cost Driver">>,
  <<"EN", "cost:total", "Total Cost">>,
  <<"EN", "cost:type", "Cost Type">>,
  <<"EN", "identity:id", "Identity">>,
  <<"DE", "identity:id", "Identit%e4;t">>,
  <<"FR", "identity:id", "Identit%e9;">>,
  <<"ES", "identity:id", "Identidad">>,
  <<"PT", "identity:id", "Identidade">>,
  <<"EN", "lifecycle:model", "Lifecycle Model">>,
  <<"DE", "lifecycle:model", "Lebenszyklus-Model">>,
  <<"FR", "lifecycle:model", "Mod%e8;le du Cycle Vital">>,
  <<"ES", "lifecycle:model", "Modelo de Ciclo de Vida">>,
  <<"PT", "lifecycle:model", "Modelo do Ciclo de Vida">>,
  <<"EN", "lifecycle:transition", "Lifecycle Transition">>,
  <<"DE", "lifecycle:transition", "Lebenszyklus-Transition">>,
  <<"FR", "lifecycle:transition", "Transition en Cycle Vital">>,
  <<"ES", "lifecycle:transition", "Transici%f3;n en Ciclo de Vida">>,
  <<"PT", "lifecycle:transition", "Transi%e7;%e3;o do Ciclo de Vida">>,
  <<"EN", "micro:length", "Number of child events for this event">>,
  <<"EN", "micro:level", "Micro level of this event">>,
  <<"EN", "micro:parentId", "Id of parent event of this event">>,
  <<"EN", "org:group", "Group">>,
  <<"DE", "org:group", "Gruppe">>,
  <<"FR", "org:group", "Groupe">>,
  <<"ES", "org:group", "Grupo">>,
  <<"PT", "org:group", "Grupo">>,
  <<"EN", "org:resource", "Resource">>,
  <<"DE", "org:resource", "Akteur">>,
  <<"FR", "org:resource", "Agent">>,
  <<"ES", "org:resource", "Recurso">>,
  <<"PT", "org:resource", "Recurso">>,
  <<"EN", "org:role", "Role">>,
  <<"DE", "org:role", "Rolle">>,
  <<"FR", "org:role", "R%f4;le">>,
  <<"ES", "org:role", "Papel">>,
  <<"PT", "org:role", "Papel">>,
  <<"EN", "semantic:modelReference", "Ontology Model Reference">>,
  <<"DE", "semantic:modelReference", "Ontologie-Modellreferenz">>,
  <<"FR", "semantic:modelReference", "R%e9;f%e9;rence au Mod%e8;le Ontologique">>,
  <<"ES", "semantic:modelReference", "Referencia de Modelo Ontol%f3;gico">>,
  <<"PT", "semantic:modelReference", "Refer%ea;ncia de Modelo Ontol%f3;gico">>,
  <<"EN", "time:timestamp", "Timestamp">>,
  <<"DE", "time:timestamp", "Zeitstempel">>,
  <<"FR", "time:timestamp", "Horodateur">>,
  <<"ES", "time:timestamp", "Timestamp">>,
  <<"PT", "time:timestamp", "Timestamp">> }
Languages == {"EN", "DE", "FR", "ES", "PT"}
Of(x) == {a \in Attrs : a.x = x}
At(x, level) == {a \in Of(x) : level \in a.at}
NameOf(lang, key) == IF \E n \in Names : n[1] = lang /\ n[2] = key THEN (CHOOSE n \in Names : n[1] = lang /\ n[2] = key)[3] ELSE "N"
Nothing == {}
Obtain(s, x) == s \cup {x}
Manager(s) == Prefixes
Use(s) == s
=============================================================================
