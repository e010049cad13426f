'''Source of properties.jsonl (run by hand).'''
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
         'observe_at': observe, 'hook_needed': False}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


prop('C01', 'Exit status 0 means the complete output was delivered',
     'Whenever a run that generates a completion script, converts a definition or installs a script exits with status 0, its destination '
     '(standard output, the -o file or the system completion file) holds exactly the complete output and no other file was changed, whatever short '
     'writes, interrupted calls, full disks or I/O errors occurred while writing. A run that could not deliver everything ends with a non-zero '
     'status and a message on standard error, and leaves in the destination either what was there before or a beginning of the new output. '
     'Running the same command again without faults then delivers the complete output, also over longer, partial or linked old files.',
     ['fault_sequences', 'crash_points', 'inputs', 'configurations'],
     'every definition, target shell, destination kind and old content; every sequence of write-side faults, kills and interrupts over successive runs',
     'The tests call the generator on a handful of definitions with a working disk and only look at the text; no test makes a write fail, fall short or be interrupted, and none looks at the exit status after one.',
     ['crazy_complete/application.py', 'crazy-complete'],
     [('write_string_to_file opens, writes, closes or prints', 'crazy_complete/application.py'), ('top-level exception handlers choose the exit status', 'crazy-complete')],
     ['process exit status', 'stdout/stderr', 'bytes in the destination file', 'the rest of the file system'])

prop('C02', 'A run that cannot use its input fails cleanly and touches nothing',
     'When a run cannot read or accept its input (missing, unreadable, truncated, undecodable or invalid definition, include file or batch file; an I/O '
     'error or an interrupt while reading or generating), it ends with a non-zero status, explains itself on standard error, prints nothing on standard output '
     'and leaves every file exactly as it was, including an existing output file or installed script, and no temporary file behind. '
     'This holds for every input type, destination and for library and command line errors alike.',
     ['inputs', 'fault_sequences', 'crash_points', 'configurations'],
     'every invalid or unreadable input, every point during reading at which a fault or interrupt strikes, every destination',
     'The tests feed a few invalid definitions to the library and compare messages; they never check what happened to the output file, stdout or temporary files, and never make a read fail half-way.',
     ['crazy_complete/application.py', 'crazy_complete/generation.py', 'crazy_complete/output.py', 'crazy_complete/file_loader.py', 'crazy-complete'],
     [('output is built completely before the destination is opened', 'crazy_complete/application.py'), ('definitions are validated before generation', 'crazy_complete/scheme_validator.py, crazy_complete/completion_validator.py'),
      ('include files are read while the text is built', 'crazy_complete/output.py')],
     ['process exit status', 'stdout/stderr', 'the whole file system before and after'])

prop('C03', 'Install and uninstall act on exactly one and the same system file',
     'A system-wide install creates or replaces exactly one file: the one the target shell loads for the program, in the completion directory that pkg-config reports, or in the '
     'documented default directory whenever pkg-config is missing, fails, crashes or reports nothing. A system-wide uninstall under the same conditions removes exactly that file; a failing '
     'install or uninstall (no directory, no permission, nothing installed, invalid definition) removes or damages no file and reports failure.',
     ['fault_sequences', 'histories', 'configurations', 'inputs'],
     'every history of install, re-install and uninstall commands for several programs and shells, under every behaviour of pkg-config and of the file system',
     'No test runs an installation: it needs a system directory and depends on what an external program answers.',
     ['crazy_complete/paths.py', 'crazy_complete/application.py'],
     [('directory lookup through pkg-config with fallback', 'crazy_complete/paths.py'), ('install/uninstall branch', 'crazy_complete/application.py')],
     ['system completion directories before and after', 'exit status'])

prop('C04', 'A batch does what its commands do when run one by one',
     'Running a batch file has the same effect on every file and on standard output, and succeeds or fails, as running its command lines one after another in separate '
     'processes and stopping at the first one that fails; blank lines and comment lines are ignored. No command in a batch influences a later one: options, '
     'configuration, loaded definitions and Python modules of earlier lines leave no trace, even when inputs share names or are replaced between lines.',
     ['histories', 'inputs', 'fault_sequences', 'configurations'],
     'every sequence of command lines (all targets, input types, options, destinations, chained inputs and failing lines) and every single fault at the same command in both executions',
     'The tests never use batch mode; state carried over between commands of one process shows only for particular pairs of commands.',
     ['crazy_complete/application.py', 'crazy_complete/file_loader.py', 'crazy_complete/argparse_source.py', 'crazy_complete/helpers.py'],
     [('try_batch parses and runs each line with a fresh Application', 'crazy_complete/application.py'), ('foreign Python files are imported into the running interpreter', 'crazy_complete/file_loader.py')],
     ['files, stdout and success of a batch run and of the separate runs'],
     [('module table and import path', 'modules of earlier Python definitions', 'sys.modules, sys.path via crazy_complete/file_loader.py')])

prop('C05', 'Generated text depends only on the definition and the options',
     'The generated script is a function of the definition, the configuration and the included files alone: it is the same byte for byte in every process and run, whatever was '
     'generated or failed before in the same process, in whatever interleaving other threads generate at the same time, under any hash seed, working directory, locale and environment. '
     'Generating never modifies the command line model or configuration passed in, so repeated generation from the same objects gives the same text.',
     ['schedules', 'histories', 'configurations', 'inputs'],
     'every definition, every history of earlier generations in the process, every interleaving of concurrent generations, every process environment',
     'Each test generates once from a fresh object in a fresh test; hidden state or a mutated model shows only in a second generation, in other orders or between threads.',
     ['crazy_complete/generation.py', 'crazy_complete/cli.py', 'crazy_complete/shell.py', 'crazy_complete/helpers.py', 'crazy_complete/bash.py', 'crazy_complete/fish.py', 'crazy_complete/zsh.py'],
     [('the model is copied before it is changed', 'crazy_complete/generation.py'), ('helper registries are created per generation', 'crazy_complete/bash_helpers.py, fish_helpers.py, zsh_helpers.py')],
     ['returned text', 'the model object before and after'],
     [('command line model', 'definition given by the caller', 'crazy_complete/cli.py'), ('helper registry', 'which helper functions and defines are used', 'crazy_complete/helpers.py')])

prop('C06', 'Every input file is taken as one consistent version',
     'If a definition or include file is replaced atomically by another version at any moment while a run is in progress, the result is exactly what one of the versions produces, never a mixture or a '
     'spurious error, for every input type. A definition that can only be read once, such as a pipe or standard input, gives the same result as a regular file with the same content.',
     ['schedules', 'inputs', 'configurations'],
     'every pair of versions, every point between two file operations of the run at which the replacement happens, every way to deliver the bytes (chunk sizes, pipes)',
     'Tests read quiescent regular files; a double read shows only when the file changes between the two reads or cannot be read twice.',
     ['crazy_complete/yaml_source.py', 'crazy_complete/json_source.py', 'crazy_complete/file_loader.py', 'crazy_complete/help_converter.py', 'crazy_complete/output.py', 'crazy_complete/config.py'],
     [('loaders read and parse the definition file', 'crazy_complete/yaml_source.py, json_source.py, file_loader.py')],
     ['exit status and output compared with runs on each version'])

SH = ['crazy_complete/bash.py', 'crazy_complete/bash_complete.py', 'crazy_complete/bash_helpers.py', 'crazy_complete/fish.py', 'crazy_complete/fish_complete.py',
      'crazy_complete/fish_helpers.py', 'crazy_complete/zsh.py', 'crazy_complete/zsh_complete.py', 'crazy_complete/zsh_helpers.py']

prop('C07', 'A completion answer does not depend on the session history',
     'In bash, fish and zsh, the suggestions for a command line depend only on that command line, the definition, and the current outside world (files, helper program answers): '
     'they are the same as the first completion of a fresh shell would give, whatever was completed before in the session, in whichever order, with whichever helper failures, '
     'interrupts, edits or completions of other programs and lines in between.',
     ['histories', 'schedules', 'fault_sequences', 'inputs'],
     'every definition and every session: sequence of completions, edits, accepted lines, file changes, helper faults and interrupts, for several programs in one shell',
     'Each test starts a fresh shell or completes one line; state left behind in the shell shows only in a later completion.',
     SH,
     [('parser state is local to one completion call', 'crazy_complete/bash_parser.py, bash_parser_v2.py'), ('fish query cache', 'crazy_complete/fish_helpers.py'), ('zsh query state', 'crazy_complete/zsh_helpers.py')],
     ['suggestions recorded inside the real shell'],
     [('query/parser state of the generated script', 'parsed options and positionals', 'helper functions in crazy_complete/*_helpers.py')])

prop('C08', 'Completing leaves the interactive shell as it was',
     "Pressing TAB never changes the user's shell: its working directory, shell options, traps, positional parameters, aliases, exported environment, and every variable and function that does not belong to the generated script "
     '(underscore-prefixed names and variables requested through capture excepted) have the same values as before, and no file is created, changed or removed by the generated script itself. '
     'This holds whatever the user has set beforehand (unusual IFS, shell options, same-named variables), and also when a helper fails or the completion is interrupted.',
     ['histories', 'fault_sequences', 'configurations', 'inputs'],
     'every definition and completer, every user shell configuration, every session with helper faults and interrupts',
     'The tests only look at the suggestions, in a shell with default settings.',
     SH,
     [('local variables in generated functions', 'crazy_complete/bash.py, zsh.py, fish.py'), ('pushd/popd around directory completion', 'helper functions in crazy_complete/*_helpers.py')],
     ['full dump of shell state before and after each completion'])

prop('C09', 'Text from the command line, files and helpers is never executed',
     'Whatever the user has typed on the command line, whatever file and directory names exist, and whatever completion helper programs print, completing treats it as data: no command, command substitution or '
     'expansion contained in it is ever executed or evaluated, in any of the three shells, for any definition, whether or not helpers fail.',
     ['inputs', 'histories', 'fault_sequences'],
     'every command line typed (with hostile words in every position), every hostile file name and helper output, in sessions with faults',
     'Tests complete benign words; the dangerous re-evaluation happens only for words with shell syntax in particular positions.',
     SH,
     [('quoting and eval use in helper functions', 'crazy_complete/bash_helpers.py, fish_helpers.py, zsh_helpers.py')],
     ['canary commands and files that execution would create'])

prop('C10', 'Offered options follow the rules for used options',
     'At an option position, exactly those options of the current command (and, if inherited, of its parent commands) are suggested that may still be used: an option already given is not suggested again unless it is repeatable, '
     'members of a mutually exclusive group disappear once another member was given, nothing is suggested after a final option, hidden options never appear, and disabled features lift exactly their rule. '
     'This holds at every step of editing a command line, in all three shells, whichever option string or form (joined, separate, stacked) was used to give the earlier options.',
     ['histories', 'inputs', 'configurations'],
     'every definition and configuration, every sequence of words given before the cursor, built up and edited step by step',
     'The tests cover one line per feature; the rules interact over sequences of options, forms and subcommands.',
     ['crazy_complete/bash_option_strings_completion.py', 'crazy_complete/bash_parser.py', 'crazy_complete/bash_parser_v2.py', 'crazy_complete/fish_conditions.py', 'crazy_complete/fish_complete.py', 'crazy_complete/zsh_utils.py', 'crazy_complete/zsh.py'],
     [('bash option conditions over parsed options', 'crazy_complete/bash_option_strings_completion.py'), ('fish option conditions', 'crazy_complete/fish_conditions.py'), ('zsh exclusion lists', 'crazy_complete/zsh_utils.py')],
     ['suggested option strings compared with a reference model'])

prop('C11', 'Every word is attributed to the right command, positional or option',
     'The words before the cursor are attributed as the program itself would: subcommands by name, alias or (if enabled) unique abbreviation, option arguments joined or separate as the definition allows, stacked short options, positionals in order '
     'with the repeatable one taking the rest, and nothing after a double dash taken as an option. The suggestions for the word at the cursor are exactly those of the completer that belongs to that place, in all three shells.',
     ['inputs', 'histories', 'configurations'],
     'every definition and configuration, every well-formed command line built up step by step',
     'Tests cover each syntax form in isolation; attribution errors show for combinations of forms before the cursor.',
     ['crazy_complete/bash_parser.py', 'crazy_complete/bash_parser_v2.py', 'crazy_complete/bash_option_completion.py', 'crazy_complete/bash_positionals_completion.py', 'crazy_complete/fish_helpers.py', 'crazy_complete/fish.py', 'crazy_complete/zsh_helpers.py', 'crazy_complete/zsh.py'],
     [('generated parser', 'crazy_complete/bash_parser.py, bash_parser_v2.py'), ('fish query', 'crazy_complete/fish_helpers.py'), ('zsh query and _arguments specs', 'crazy_complete/zsh_helpers.py, zsh.py')],
     ['suggestions compared with a reference model'])

prop('C12', 'List and key-value completers never offer what is used up',
     'While a separated list or key-value list is being typed, exactly the not yet used values (or keys, minus those excluded by keys already given) are suggested after each separator, or all of them where duplicates are allowed (the list completer of Zsh, which offers used values again, excepted); after a key and its separator exactly that '
     "key's values are suggested, and what was already typed is kept unchanged in every suggestion. This holds after every separator and edit, for static values and for values that a helper program prints, in all three shells.",
     ['histories', 'inputs', 'fault_sequences'],
     'every list definition (values, separators, duplicates, exclusions, helper output) and every sequence of typed, accepted and erased items',
     'Tests complete the first or second item of one list; the rule concerns every later state of the list.',
     ['crazy_complete/bash_complete.py', 'crazy_complete/bash_helpers.py', 'crazy_complete/fish_complete.py', 'crazy_complete/fish_helpers.py', 'crazy_complete/zsh_complete.py', 'crazy_complete/zsh_helpers.py'],
     [('value list and key-value list helpers', 'crazy_complete/*_helpers.py')],
     ['suggestions compared with a reference model'])

prop('C13', 'Captured option values reach the helper unchanged',
     'When a definition captures an option into a variable of its own, a helper run during completion sees in that variable, as an array, exactly the values given for that option before the cursor, one element for each, in order and complete, and nothing when none was given, '
     'whichever option string and form was used and whatever characters the values contain. Values of an earlier command line never show up in a later completion.',
     ['inputs', 'histories', 'configurations'],
     'every definition with captures, every sequence of lines with captured values of arbitrary printable text',
     'Tests use one benign value per capture; splitting, stale or missing values show for other values and later completions.',
     ['crazy_complete/bash.py', 'crazy_complete/fish.py', 'crazy_complete/zsh.py', 'crazy_complete/bash_parser.py', 'crazy_complete/fish_helpers.py', 'crazy_complete/zsh_helpers.py'],
     [('capture code at the start of the completion function', 'crazy_complete/bash.py, fish.py, zsh.py')],
     ['values recorded by the helper during the completion'])

prop('C14', 'A failing helper costs only its own suggestions',
     'If a helper command used by a completer fails, is missing, is killed, prints nothing, partial or malformed lines, or floods its output, the completion still returns, without an error of the completion script itself on the terminal (the shell may report that the helper cannot be run), suggestions that do not come from that helper are complete, '
     'the typed line is untouched and the shell stays usable. The next completion after the helper works again gives the full suggestions.',
     ['fault_sequences', 'histories', 'inputs'],
     'every definition with helper commands, every behaviour of the helper at each completion, every order of failing and working completions',
     'Tests use helpers that always work.',
     SH,
     [('exec helpers', 'crazy_complete/bash_helpers.py, fish_helpers.py, zsh_helpers.py'), ('combine helper', 'crazy_complete/*_helpers.py')],
     ['suggestions, terminal output and shell state after faults'])

prop('C15', 'Conditional options and arguments follow the command line',
     'An option or positional with a condition takes part in completion exactly when its condition holds for the words before the cursor, re-evaluated at every completion as the line is typed, edited and erased. '
     'Conditions see options in all their forms and spellings, honour negation and value lists, and disabling the feature makes conditional elements behave as unconditional ones; this holds in all three shells.',
     ['histories', 'inputs', 'configurations'],
     'every condition and definition, every sequence of edits of the command line',
     'Tests evaluate each kind of condition on one or two lines.',
     ['crazy_complete/when.py', 'crazy_complete/bash_when.py', 'crazy_complete/fish_conditions.py', 'crazy_complete/zsh_when.py', 'crazy_complete/generation.py'],
     [('condition compilers', 'crazy_complete/bash_when.py, fish_conditions.py, zsh_when.py')],
     ['suggestions compared with a reference model'])

prop('C16', 'A definition means the same in every format',
     'The same definition gives the same script whether it is written as JSON, as YAML in any style (with defines, comments, several documents) or as a Python argparse parser, and however often crazy-complete converted it between formats before, '
     'whatever characters its texts contain and in whatever pieces files and pipes between the runs deliver their bytes. What crazy-complete itself writes as JSON or YAML, also from a help text, is always accepted as a definition, and converting it again changes nothing.',
     ['inputs', 'histories', 'configurations', 'fault_sequences'],
     'every definition in every way to write it, every chain of conversions connected by files or pipes, every way of splitting and interrupting the transfers',
     'Tests convert a few fixed definitions with ASCII texts once, from whole files, and do not compare the scripts generated before and after.',
     ['crazy_complete/json_source.py', 'crazy_complete/yaml_source.py', 'crazy_complete/extended_yaml_parser.py', 'crazy_complete/dictionary_source.py', 'crazy_complete/argparse_source.py', 'crazy_complete/help_converter.py', 'crazy_complete/help_parser.py', 'crazy_complete/scheme_validator.py'],
     [('writers that leave out default values', 'crazy_complete/dictionary_source.py, yaml_source.py'), ('conversion of argparse actions', 'crazy_complete/argparse_source.py'), ('YAML is parsed twice, for the validation and for the values', 'crazy_complete/yaml_source.py')],
     ['scripts generated from every form of the definition', 'converted definitions'])

prop('C17', 'File and directory completers offer exactly the entries they are meant for',
     'Whatever the directory tree looks like and however it changes between two completions, a `file` or `directory` completer offers in every shell exactly the entries of the current tree it is meant for: all directories, and for `file` those files whose extension is one of `extensions` (in any case) and that match none of the Bash patterns in `ignore_globs`, relative to `directory` if one is given. '
     'Names with spaces or special characters, paths typed in part, dangling links, vanished directories and floods of files make no difference, and the working directory of the shell stays what it was.',
     ['inputs', 'histories', 'configurations', 'fault_sequences'],
     'every tree of files and every sequence of changes between the completions, every combination of completer options, every partly typed path and every form of the argument, in Bash, Fish and Zsh',
     'Tests compare the text of generated scripts for a few fixed options and complete in one small static directory without special names.',
     ['crazy_complete/pattern.py', 'crazy_complete/bash_complete.py', 'crazy_complete/bash_utils.py', 'crazy_complete/bash_helpers.py', 'crazy_complete/fish_complete.py', 'crazy_complete/fish_helpers.py', 'crazy_complete/zsh_complete.py', 'crazy_complete/zsh_utils.py', 'crazy_complete/zsh_helpers.py'],
     [('translation of Bash globs to regular expressions and Zsh patterns', 'crazy_complete/pattern.py'), ('relative directories', 'crazy_complete/bash_complete.py (pushd), fish_helpers.py filedir, zsh_helpers.py path_files_relative'), ('patterns for extensions', 'crazy_complete/bash_utils.py, zsh_utils.py, fish_complete.py')],
     ['completion candidates of the shells', 'working directory of the shell'])

prop('C18', 'Every suggestion is shown with its own description, in the order asked for',
     'Where a shell shows descriptions (Fish, Zsh), every suggested option, subcommand, choice, suffix, key or line of a helper is shown with exactly the text that the definition, or the helper at that moment, gives for it, whatever characters that text contains and whatever was completed before. '
     'No such text is ever run, expanded, turned into a suggestion of its own or reported as an error in any of the three shells. '
     'With `nosort`, values are offered in the order of the completer (Bash, Fish, and in Zsh where the completer supports it).',
     ['inputs', 'histories', 'configurations', 'fault_sequences'],
     'every text in every place of a definition or of the answer of a helper, every history of completions of several programs, helpers that change their answers or fail between them',
     'Tests use a few fixed plain texts, compare mostly the text of generated scripts and complete with helpers whose answers never change.',
     ['crazy_complete/zsh_utils.py', 'crazy_complete/zsh_complete.py', 'crazy_complete/zsh.py', 'crazy_complete/zsh_helpers.py', 'crazy_complete/fish_complete.py', 'crazy_complete/fish.py', 'crazy_complete/fish_helpers.py', 'crazy_complete/bash_complete.py', 'crazy_complete/bash_option_completion.py', 'crazy_complete/shell.py'],
     [('quoting of descriptions', 'crazy_complete/shell.py, zsh_utils.py, fish_utils.py'), ('nosort', 'crazy_complete/bash_complete.py, zsh_complete.py, fish.py')],
     ['descriptions and order that the shells are given'])

with open(OUT, 'w') as fh:
    for p in P:
        n = p['statement'].count('. ') + 1
        if n > 3:
            raise SystemExit('%s: %d sentences' % (p['id'], n))
        fh.write(json.dumps(p) + '\n')
print(len(P))
