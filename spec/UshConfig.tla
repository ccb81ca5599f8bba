----------------------------- MODULE UshConfig ------------------------------
(* Build-time configurations of the shell (harness/ush_config.h) and the      *)
(* texts that follow from them.                                               *)
EXTENDS UshBytes

\* status messages, in the order of the public status codes
StatusDefault ==
   <<B("ok"),
     B("error: directory not found"),
     B("error: nested directories exist"),
     B("error: cannot find parent node"),
     B("error: directory already mounted"),
     B("error: syntax error"),
     B("error: wrong arguments"),
     B("error: file not executable"),
     B("error: file not writable"),
     B("error: file not readable"),
     B("error: no help available"),
     B("error: file not found"),
     B("error: read only file")>>
StatusTranslated ==
   <<B("gut"),
     B("Fehler: Ordner fehlt"),
     B("Fehler: Ordner nicht leer"),
     B("Fehler: kein Oberordner"),
     B("Fehler: schon da"),
     B("Fehler: Syntax"),
     B("Fehler: falsche Argumente"),
     B("Fehler: nicht startbar"),
     B("Fehler: nicht schreibbar"),
     B("Fehler: nicht lesbar"),
     B("Fehler: keine Hilfe"),
     B("Fehler: Datei fehlt"),
     B("Fehler: nur lesbar")>>

\* one built-in command: id is the negated position in the full table
Cmd(name, desc, help) ==
  [n |-> B(name), hd |-> 1, d |-> B(desc), hh |-> 1, h |-> help, x |-> 1, g |-> 0, s |-> 0, p |-> 0, k |-> name]

Line1(s) == B(s) \o CRLF

CmdHelp == Cmd("help", "list available commands", Line1("usage: help [file]"))
CmdLs   == Cmd("ls", "list directory content", Line1("usage: ls [path]"))
CmdCd   == Cmd("cd", "change current directory", Line1("usage: cd <path>"))
CmdPwd  == Cmd("pwd", "print current directory", Line1("usage: pwd"))
CmdCat  == Cmd("cat", "print files content", Line1("usage: cat <files...>"))
CmdXxd  == Cmd("xxd", "dump file hex content", Line1("usage: xxd <file>"))
CmdEcho == Cmd("echo", "print string to file",
               Line1("usage: echo <string> > <file>") \o Line1("       echo [string]")
               \o Line1("       * can be ascii-hex encoded string with \\xNN format."))

Number(cs) == [i \in 1..Len(cs) |-> [id |-> -i, n |-> cs[i].n, hd |-> cs[i].hd, d |-> cs[i].d, hh |-> cs[i].hh,
                                     h |-> cs[i].h, x |-> cs[i].x, g |-> cs[i].g, s |-> cs[i].s, p |-> 0, k |-> cs[i].k]]

AllCmds == Number(<<CmdHelp, CmdLs, CmdCd, CmdPwd, CmdCat, CmdXxd, CmdEcho>>)

Sgr(n) == <<ESC>> \o B(n)
Styled == [reset |-> Sgr("[0m"), green |-> Sgr("[32m"), yellow |-> Sgr("[33m"), magenta |-> Sgr("[35m")]
Plain  == [reset |-> <<>>, green |-> <<>>, yellow |-> <<>>, magenta |-> <<>>]

\* configurations 5 to 11 leave out one command each
Without(k) == Number(SelectSeq(<<CmdHelp, CmdLs, CmdCd, CmdPwd, CmdCat, CmdXxd, CmdEcho>>,
                               LAMBDA c : c # <<CmdHelp, CmdLs, CmdCd, CmdPwd, CmdCat, CmdXxd, CmdEcho>>[k]))

Config ==
  [v \in 0..14 |->
     \* 13 and 14 are the configurations shipped with the library (POSIX, Arduino)
     CASE v \in {0, 13, 14} -> [style |-> Styled, align |-> 16, cols |-> 8, cmds |-> AllCmds, hascmds |-> TRUE, comp |-> TRUE, status |-> StatusDefault]
       [] v = 1 -> [style |-> Plain, align |-> 5, cols |-> 3, cmds |-> AllCmds, hascmds |-> TRUE, comp |-> TRUE, status |-> StatusTranslated]
       [] v = 2 -> [style |-> Styled, align |-> 16, cols |-> 8, cmds |-> <<>>, hascmds |-> FALSE, comp |-> FALSE, status |-> StatusDefault]
       [] v = 3 -> [style |-> Styled, align |-> 16, cols |-> 16, cmds |-> Number(<<CmdHelp, CmdCd, CmdPwd, CmdXxd>>), hascmds |-> TRUE, comp |-> FALSE, status |-> StatusDefault]
       [] v = 4 -> [style |-> Plain, align |-> 20, cols |-> 1, cmds |-> Number(<<CmdLs, CmdCat, CmdEcho>>), hascmds |-> TRUE, comp |-> TRUE, status |-> StatusDefault]
       [] v \in 5..11 -> [style |-> IF v % 2 = 1 THEN Styled ELSE Plain, align |-> v + 4, cols |-> 2 * v - 8, cmds |-> Without(v - 4),
                          hascmds |-> TRUE, comp |-> TRUE, status |-> StatusDefault]
       [] v = 12 -> [style |-> Plain, align |-> 1, cols |-> 6, cmds |-> <<>>, hascmds |-> FALSE, comp |-> TRUE, status |-> StatusDefault]]

Welcome == B("uShell 0.1.0") \o CRLF
OverflowMsg == B("...overflow error") \o CRLF
FormatMsg   == B("...format error") \o CRLF
=============================================================================
