/* Configuration variants of the library under test, chosen by -DVCFG=<n>.
 * The texts and numbers are mirrored in spec/UshConfig.tla. */
#ifndef USH_CONFIG_H
#define USH_CONFIG_H
#include <stdio.h>
#include <stdlib.h>

void h_assert_fail(const char *file, int line);
#define USH_ASSERT(cond) { if (!(cond)) { h_assert_fail(__FILE__, __LINE__); } }

#ifndef VCFG
#error "VCFG not set"
#endif

#if VCFG == 0                   /* everything on, default texts */
#define V_ALIGN 16
#define V_COLS 8
#define V_CAT 1
#define V_CD 1
#define V_ECHO 1
#define V_HELP 1
#define V_LS 1
#define V_PWD 1
#define V_XXD 1
#define V_CMDS 1
#define V_AC 1
#define V_STYLE 1
#elif VCFG == 1                 /* no styles, narrow layout, translated texts */
#define V_ALIGN 5
#define V_COLS 3
#define V_CAT 1
#define V_CD 1
#define V_ECHO 1
#define V_HELP 1
#define V_LS 1
#define V_PWD 1
#define V_XXD 1
#define V_CMDS 1
#define V_AC 1
#define V_STYLE 0
#elif VCFG == 2                 /* no built-in commands, no completion */
#define V_ALIGN 16
#define V_COLS 8
#define V_CAT 1
#define V_CD 1
#define V_ECHO 1
#define V_HELP 1
#define V_LS 1
#define V_PWD 1
#define V_XXD 1
#define V_CMDS 0
#define V_AC 0
#define V_STYLE 1
#elif VCFG == 3                 /* some commands left out, completion off */
#define V_ALIGN 16
#define V_COLS 16
#define V_CAT 0
#define V_CD 1
#define V_ECHO 0
#define V_HELP 1
#define V_LS 0
#define V_PWD 1
#define V_XXD 1
#define V_CMDS 1
#define V_AC 0
#define V_STYLE 1
#elif VCFG == 4                 /* the other commands left out, no styles */
#define V_ALIGN 20
#define V_COLS 1
#define V_CAT 1
#define V_CD 0
#define V_ECHO 1
#define V_HELP 0
#define V_LS 1
#define V_PWD 0
#define V_XXD 0
#define V_CMDS 1
#define V_AC 1
#define V_STYLE 0
#elif VCFG >= 5 && VCFG <= 11   /* one command left out, other layouts */
/* the width ends up in a format string: a literal number */
#if VCFG == 5
#define V_ALIGN 9
#define V_COLS 2
#elif VCFG == 6
#define V_ALIGN 10
#define V_COLS 4
#elif VCFG == 7
#define V_ALIGN 11
#define V_COLS 6
#elif VCFG == 8
#define V_ALIGN 12
#define V_COLS 8
#elif VCFG == 9
#define V_ALIGN 13
#define V_COLS 10
#elif VCFG == 10
#define V_ALIGN 14
#define V_COLS 12
#elif VCFG == 11
#define V_ALIGN 15
#define V_COLS 14
#endif
#define V_HELP (VCFG != 5)
#define V_LS (VCFG != 6)
#define V_CD (VCFG != 7)
#define V_PWD (VCFG != 8)
#define V_CAT (VCFG != 9)
#define V_XXD (VCFG != 10)
#define V_ECHO (VCFG != 11)
#define V_CMDS 1
#define V_AC 1
#define V_STYLE (VCFG % 2)
#elif VCFG == 12                /* completion without built-in commands */
#define V_ALIGN 1
#define V_COLS 6
#define V_CAT 1
#define V_CD 1
#define V_ECHO 1
#define V_HELP 1
#define V_LS 1
#define V_PWD 1
#define V_XXD 1
#define V_CMDS 0
#define V_AC 1
#define V_STYLE 0
#else
#error "unknown VCFG"
#endif

#define USH_CONFIG_FILENAME_ALIGN_SPACE         V_ALIGN
#define USH_CONFIG_CMD_XXD_COLUMNS              V_COLS
#define USH_CONFIG_ENABLE_COMMAND_CAT           V_CAT
#define USH_CONFIG_ENABLE_COMMAND_CD            V_CD
#define USH_CONFIG_ENABLE_COMMAND_ECHO          V_ECHO
#define USH_CONFIG_ENABLE_COMMAND_HELP          V_HELP
#define USH_CONFIG_ENABLE_COMMAND_LS            V_LS
#define USH_CONFIG_ENABLE_COMMAND_PWD           V_PWD
#define USH_CONFIG_ENABLE_COMMAND_XXD           V_XXD
#define USH_CONFIG_ENABLE_FEATURE_COMMANDS      V_CMDS
#define USH_CONFIG_ENABLE_FEATURE_AUTOCOMPLETE  V_AC
#define USH_CONFIG_ENABLE_FEATURE_SHELL_STYLES  V_STYLE

#if VCFG == 1
#define USH_CONFIG_TRANSLATION_OK                               "gut"
#define USH_CONFIG_TRANSLATION_ERROR                            "Fehler"
#define USH_CONFIG_TRANSLATION_DIRECTORY_NOT_FOUND              "Ordner fehlt"
#define USH_CONFIG_TRANSLATION_NESTED_DIRECTORIES_EXIST         "Ordner nicht leer"
#define USH_CONFIG_TRANSLATION_CANNOT_FIND_PARENT_NODE          "kein Oberordner"
#define USH_CONFIG_TRANSLATION_DIRECTORY_ALREADY_MOUNTED        "schon da"
#define USH_CONFIG_TRANSLATION_SYNTAX_ERROR                     "Syntax"
#define USH_CONFIG_TRANSLATION_WRONG_ARGUMENTS                  "falsche Argumente"
#define USH_CONFIG_TRANSLATION_FILE_NOT_EXECUTABLE              "nicht startbar"
#define USH_CONFIG_TRANSLATION_FILE_NOT_WRITABLE                "nicht schreibbar"
#define USH_CONFIG_TRANSLATION_FILE_NOT_READABLE                "nicht lesbar"
#define USH_CONFIG_TRANSLATION_NO_HELP_AVAILABLE                "keine Hilfe"
#define USH_CONFIG_TRANSLATION_FILE_NOT_FOUND                   "Datei fehlt"
#define USH_CONFIG_TRANSLATION_READ_ONLY_FILE                   "nur lesbar"
#else
#define USH_CONFIG_TRANSLATION_OK                               "ok"
#define USH_CONFIG_TRANSLATION_ERROR                            "error"
#define USH_CONFIG_TRANSLATION_DIRECTORY_NOT_FOUND              "directory not found"
#define USH_CONFIG_TRANSLATION_NESTED_DIRECTORIES_EXIST         "nested directories exist"
#define USH_CONFIG_TRANSLATION_CANNOT_FIND_PARENT_NODE          "cannot find parent node"
#define USH_CONFIG_TRANSLATION_DIRECTORY_ALREADY_MOUNTED        "directory already mounted"
#define USH_CONFIG_TRANSLATION_SYNTAX_ERROR                     "syntax error"
#define USH_CONFIG_TRANSLATION_WRONG_ARGUMENTS                  "wrong arguments"
#define USH_CONFIG_TRANSLATION_FILE_NOT_EXECUTABLE              "file not executable"
#define USH_CONFIG_TRANSLATION_FILE_NOT_WRITABLE                "file not writable"
#define USH_CONFIG_TRANSLATION_FILE_NOT_READABLE                "file not readable"
#define USH_CONFIG_TRANSLATION_NO_HELP_AVAILABLE                "no help available"
#define USH_CONFIG_TRANSLATION_FILE_NOT_FOUND                   "file not found"
#define USH_CONFIG_TRANSLATION_READ_ONLY_FILE                   "read only file"
#endif

#endif
