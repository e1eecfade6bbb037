------------------------------ MODULE MCSscanf ------------------------------
(* Explores every call of the program in the file named by the environment *)
(* variable PROGRAM and prints the result of each as a line of JSON.       *)
EXTENDS Sscanf, Json, IOUtils

Program == JsonDeserialize(IOEnv.PROGRAM)

Emit == phase = "done" => PrintT("@@" \o ToJson([s |-> site, i |-> inp, o |-> out, l |-> log]))
=============================================================================
