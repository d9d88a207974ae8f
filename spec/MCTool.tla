-------------------------------- MODULE MCTool --------------------------------
EXTENDS Tool, IOUtils
MCOpts == ndJsonDeserialize(IOEnv.VT_OPTS)
MCFiles == {"ast/ast.go", "parser/parser.go", "lexer/lexer.go", "notes.txt", "LR1_conflicts.txt", "first.txt"}
MCAst == {"ast/ast.go"}
===============================================================================
