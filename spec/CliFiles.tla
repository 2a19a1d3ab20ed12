------------------------------ MODULE CliFiles ------------------------------
(* The names under which the command's file may be given.                 *)
FileNames == {"FILE", "./FILE", "DIR/../FILE", "DIR/FILE", "FILE.json", "FILE.avsc", "FILE.yaml", "FILE.txt", "my file", "-FILE", "--FILE", "avro",
              "bigquery", "stdin", "@FILE", "~", "*", "$HOME", "file:FILE", ".json"}
\* other names of the file that a lone - does not stand for
DashNames == {"./-", "DIR/../-"}
=============================================================================
