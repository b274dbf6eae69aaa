------------------------------- MODULE Errors -------------------------------
(* What went wrong, where: messages, with the values they are about, and the *)
(* errors that carry them.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* The text of a message about values.
Text(id, a) ==
    CASE id = "UNKNOWN_ERROR" -> "Sorry, unknown error"
      [] id = "IO_ERROR" -> "I/O error handling " \o a[1] \o ": " \o a[2]
      [] id = "DOES_NOT_EXIST" -> "Does not exist"
      [] id = "CANNOT_BE_READ" -> "Cannot be read"
      [] id = "CANNOT_BE_WRITTEN" -> "Cannot be written"
      [] id = "CANNOT_BE_CREATED" -> "Cannot be created"
      [] id = "DOES_NOT_CONFORM_TO_CONVENTION" ->
             "Does not conform to convention: " \o a[1]
      [] id = "DOES_NOT_CONTAIN_VARIABLE" ->
             "Does not contain variable: " \o a[1]
      [] id = "VARIABLE_IS_NOT_A_SCALAR" ->
             "Variable is not a scalar: " \o a[1]
      [] id = "DOES_NOT_CONTAIN_FEATURE" ->
             "Does not contain feature: " \o a[1]
      [] id = "DOES_NOT_CONTAIN_ATTRIBUTE" ->
             "Does not contain attribute: " \o a[1]
      [] id = "DOES_NOT_CONTAIN_DATA" -> "Does not contain data: " \o a[1]
      [] id = "UNSUPPORTED_VALUE_TYPE" ->
             "Unsupported value type: " \o a[1] \o ": " \o a[2]
      [] id = "NO_SUCH_DRIVER" -> "No such driver: " \o a[1]
      [] id = "ERROR_PARSING" ->
             "Error parsing " \o a[1] \o ":" \o a[2] \o ":" \o a[3] \o ": "
                 \o a[4]
      [] id = "ERROR_PARSING_STATEMENT" ->
             "Error parsing " \o a[1] \o ":" \o a[2] \o ":" \o a[3] \o ":"
                 \o a[4] \o ": " \o a[5]
      [] id = "UNSUPPORTED_LANGUAGE_CONSTRUCT" ->
             "Unsupported language construct: " \o a[1]
      [] id = "UNDEFINED_IDENTIFIER" -> "Undefined identifier: " \o a[1]
      [] id = "UNDEFINED_OPERATION" -> "Undefined operation: " \o a[1]
      [] id = "WRONG_NUMBER_OF_ARGUMENTS" ->
             "Wrong number of arguments for operation: " \o a[1] \o ": "
                 \o a[2] \o " required, but " \o a[3] \o " provided"
      [] id = "WRONG_TYPE_OF_ARGUMENT" ->
             "Wrong type of argument " \o a[1] \o " provided for operation: "
                 \o a[2] \o ": " \o a[3] \o " required, but " \o a[4]
                 \o " provided"
      [] id = "ERROR_VALIDATING" ->
             a[1] \o ":" \o a[2] \o ":" \o a[3] \o ": " \o a[4]

Arity(id) ==
    CASE id \in {"UNKNOWN_ERROR", "DOES_NOT_EXIST", "CANNOT_BE_READ",
                 "CANNOT_BE_WRITTEN", "CANNOT_BE_CREATED"} -> 0
      [] id \in {"IO_ERROR", "UNSUPPORTED_VALUE_TYPE"} -> 2
      [] id = "WRONG_NUMBER_OF_ARGUMENTS" -> 3
      [] id \in {"ERROR_PARSING", "WRONG_TYPE_OF_ARGUMENT",
                 "ERROR_VALIDATING"} -> 4
      [] id = "ERROR_PARSING_STATEMENT" -> 5
      [] OTHER -> 1

Ids == {"UNKNOWN_ERROR", "IO_ERROR", "DOES_NOT_EXIST", "CANNOT_BE_READ",
        "CANNOT_BE_WRITTEN", "CANNOT_BE_CREATED",
        "DOES_NOT_CONFORM_TO_CONVENTION", "DOES_NOT_CONTAIN_VARIABLE",
        "VARIABLE_IS_NOT_A_SCALAR", "DOES_NOT_CONTAIN_FEATURE",
        "DOES_NOT_CONTAIN_ATTRIBUTE", "DOES_NOT_CONTAIN_DATA",
        "UNSUPPORTED_VALUE_TYPE", "NO_SUCH_DRIVER", "ERROR_PARSING",
        "ERROR_PARSING_STATEMENT", "UNSUPPORTED_LANGUAGE_CONSTRUCT",
        "UNDEFINED_IDENTIFIER", "UNDEFINED_OPERATION",
        "WRONG_NUMBER_OF_ARGUMENTS", "WRONG_TYPE_OF_ARGUMENT",
        "ERROR_VALIDATING"}

\* Where the values go.
Places == <<"%1%", "%2%", "%3%", "%4%", "%5%">>

\* The message of an error: where it happened and why.
Message(e) ==
    CASE e.kind \in {"io", "errno"} -> Text("IO_ERROR", <<e.name, e.reason>>)
      [] e.kind = "composed" ->
             Text("IO_ERROR", <<e.name, Text(e.id, e.args)>>)
      [] e.kind = "parse" ->
             Text("ERROR_PARSING", <<e.name, e.line, e.col, e.reason>>)
      [] e.kind = "statement" ->
             Text("ERROR_PARSING_STATEMENT",
                  <<e.name, e.line, e.col, e.statement, e.reason>>)
      [] e.kind = "validate" ->
             Text("ERROR_VALIDATING", <<e.name, e.line, e.col, e.reason>>)
      [] e.kind = "plain" -> Text(e.id, e.args)

\* The types an error can be caught as: of IOError, ParseError, ValidateError,
\* ScriptError, Exception and std::exception.
Caught(kind) ==
    CASE kind \in {"io", "errno", "composed"} ->
             <<TRUE, FALSE, FALSE, FALSE, TRUE, TRUE>>
      [] kind \in {"parse", "statement"} ->
             <<FALSE, TRUE, FALSE, TRUE, TRUE, TRUE>>
      [] kind = "validate" -> <<FALSE, FALSE, TRUE, TRUE, TRUE, TRUE>>
      [] kind = "plain" -> <<FALSE, FALSE, FALSE, FALSE, TRUE, TRUE>>
=============================================================================
