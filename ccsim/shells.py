'''Real interactive bash, fish and zsh on a pseudo terminal, driven one event at a time.

Nothing happens in a session unless the simulator sends a key sequence, and no
further event is sent before the shell has acknowledged the previous one
through a FIFO, so a session is a deterministic function of its events and of
what the (simulated) helper programs do.
'''
import os, re, pty, select, time, fcntl, termios, struct, signal, shutil, stat

UID = 65534


class Hang(Exception):
    pass


class Dead(Exception):
    pass


BASH_RC = r'''
PS1='<P>' PS2='' PROMPT_COMMAND='printf "PROMPT\0" >&9'
. /usr/share/bash-completion/bash_completion
bind 'set bell-style none'
bind 'set enable-bracketed-paste off'
bind 'set show-all-if-ambiguous off'
bind 'set completion-query-items 0'
bind 'set page-completions off'
bind 'set keyseq-timeout 1'
bind 'set skip-completed-text off'
bind 'set enable-keypad off'
unset HISTFILE
exec 9<>@IO@/fifo
__v_wrap() {
  local __v_f=${__v_funcs[$1]} __v_r
  "$__v_f" "$@" 2>>@IO@/err
  __v_r=$?
  { printf 'COMP\0'; (( ${#COMPREPLY[@]} )) && printf '=%s\0' "${COMPREPLY[@]}"; printf 'OPT%s\0' "$(compopt 2>/dev/null)"; } >&9
  return $__v_r
}
declare -A __v_funcs
__v_hook() {
  local s f p
  for p; do
    s=$(complete -p -- "$p" 2>/dev/null) || continue
    f=${s##*-F }; f=${f%% *}
    [[ $f == __v_wrap ]] && continue
    __v_funcs[$p]=$f
    complete -F __v_wrap -- "$p"
  done
}
__v_dump() { printf 'LINE\0%s\0%s\0END\0' "$READLINE_LINE" "$READLINE_POINT" >&9; }
__v_state() {
  { printf 'VARS\0'; declare -p; printf '\0FUNCS\0'; declare -f; printf '\0SHOPT\0'; shopt -p; set +o; printf '\0TRAP\0'; trap -p
    printf '\0ALIAS\0'; alias -p; printf '\0PWD\0'; printf '%s\n' "${PWD-}" "${OLDPWD-}"; pwd -P; dirs -p -l; printf '\0MISC\0'; umask; ulimit -a; printf '\0ARGS\0'; printf '%s\n' "${__v_args[@]}"
    printf '\0JOBS\0'; jobs -l; printf '\0COMPLETE\0'; complete -p; printf '\0BIND\0'; bind -v 2>/dev/null; } >@IO@/state
  printf 'STATE\0END\0' >&9
}
bind -x '"\C-x\C-t": __v_dump'
bind -x '"\C-x\C-w": __v_args=("$@"); __v_state'
bind '"\C-x\C-k": kill-whole-line'
bind '"\C-x\C-e": possible-completions'
bind '"\C-x\C-b": backward-char'
bind '"\C-x\C-a": beginning-of-line'
bind '"\C-x\C-y": abort'
'''

FISH_RC = r'''
set -g fish_autosuggestion_enabled 0
set -g fish_greeting
function fish_prompt; printf 'PROMPT\0' > @IO@/fifo; printf '<P>'; end
function fish_right_prompt; end
function fish_title; end
function fish_mode_prompt; end
function __v_comp
  set -l __v_l (commandline -cp)
  complete -C"$__v_l" > @IO@/comp 2>>@IO@/err
  begin; printf 'COMP\0'; cat @IO@/comp; printf '\0END\0'; end > @IO@/fifo
end
function __v_dump; begin; printf 'LINE\0%s\0%s\0END\0' (commandline | string collect) (commandline -C); end > @IO@/fifo; end
function __v_state
  begin
    printf 'VARS\0'; set -g --long; printf '\0UVARS\0'; set -U --long; printf '\0XVARS\0'; set -x --long; printf '\0FUNCS\0'; for f in (functions -an); printf '%s\n' $f; end
    printf '\0BODY\0'; for f in $__v_watch; functions --no-details $f; end
    printf '\0PWD\0'; pwd -P; printf '%s\n' $PWD $dirprev $dirnext; dirs; printf '\0MISC\0'; umask; printf '\0TRAP\0'; trap -p; printf '\0ABBR\0'; abbr --show; printf '\0JOBS\0'; jobs
    printf '\0BIND\0'; bind | string match -v '*__v_*'; printf '\0COMPLETE\0'; printf '%s\n' $argv
  end > @IO@/state 2>&1
  printf 'STATE\0END\0' > @IO@/fifo
end
function fish_user_key_bindings
bind \cx\cd __v_dump
bind \cx\ce __v_comp
bind \cx\cw __v_state
bind \cx\ck 'commandline ""'
bind \cx\cb backward-char
bind \cx\ca beginning-of-line
bind \cx\cy cancel-commandline
end
'''

ZSH_RC = r'''
PS1='<P>'
unsetopt promptcr promptsp
unset zle_bracketed_paste
fpath=(@IO@/fpath $fpath)
autoload -Uz compinit; compinit -C -d @DUMP@
exec 9<>@IO@/fifo
precmd() { printf 'PROMPT\0' >&9 }
setopt no_beep
unset HISTFILE
LISTMAX=100000
TMPPREFIX=@IO@/ztmp
KEYTIMEOUT=1
typeset -g -a __v_all __v_shown
__v_compadd() {
  if (( ${@[(I)-[OAD]*]} )); then builtin compadd "$@"; return $?; fi
  local -a __v_m
  builtin compadd -O __v_m "$@"
  (( $#__v_m )) && __v_all+=("${__v_m[@]}")
  (( ${+__v_wantd} )) && __v_disp "$@"
  builtin compadd "$@"
}
__v_disp() {
  # what is shown for each match, and whether the order is kept
  local -a __v_m __v_d
  local __v_n= __v_s=sorted
  local -i __v_i
  for (( __v_i = 1; __v_i <= $#; __v_i++ )); do
    case ${argv[__v_i]} in
      -|--) break;;
      -V|-[a-zA-Z12]#V) __v_s=kept; (( __v_i++ ));;
      -o) [[ ${argv[__v_i+1]} == *(nosort|match)* ]] && __v_s=kept; (( __v_i++ ));;
      -onosort) __v_s=kept;;
      -d) __v_n=${argv[__v_i+1]}; (( __v_i++ ));;
      -[PSpsiIWJXxrRFME]) (( __v_i++ ));;
      -[a-zA-Z12]*d) [[ ${argv[__v_i]} == -[PSpsiIWJXxrRFMEo]* ]] || { __v_n=${argv[__v_i+1]}; (( __v_i++ )) };;
    esac
  done
  [[ -n $__v_n ]] && __v_d=("${(@P)__v_n}")
  builtin compadd -O __v_m -D __v_d "$@"
  for (( __v_i = 1; __v_i <= $#__v_m; __v_i++ )); do
    __v_shown+=("$__v_s" "${__v_m[__v_i]}" "${__v_d[__v_i]-}")
  done
}
__v_comp() {
  __v_all=() __v_shown=()
  functions[compadd]=$functions[__v_compadd]
  { _main_complete 2>>@IO@/err } always { unfunction compadd; TRY_BLOCK_ERROR=0 }
  { printf 'COMP\0'; (( $#__v_all )) && printf '=%s\0' "${(@)__v_all//$'\0'/^@}"; (( $#__v_shown )) && printf '+%s\0' "${(@)__v_shown//$'\0'/^@}"; printf 'END\0' } >&9
  compstate[insert]='' compstate[list]=''
}
zle -C __v_comp complete-word __v_comp
__v_dump() { printf 'LINE\0%s\0%s\0END\0' "$BUFFER" $CURSOR >&9 }
zle -N __v_dump
__v_state() {
  { printf 'VARS\0'; typeset -p; printf '\0FUNCS\0'; functions; printf '\0SHOPT\0'; setopt; printf -- '--\n'; unsetopt; printf '\0TRAP\0'; trap
    printf '\0ALIAS\0'; alias -L; printf '\0PWD\0'; printf '%s\n' "${PWD-}" "${OLDPWD-}"; pwd -P; dirs -p -l; printf '\0MISC\0'; umask; printf '\0ARGS\0'; printf '%s\n' "${__v_args[@]-}"; printf '\0JOBS\0'; jobs; printf '\0COMPLETE\0'; zstyle -L } >@IO@/state
  printf 'STATE\0END\0' >&9
}
zle -N __v_state
bindkey '^X^T' __v_dump
bindkey '^X^E' __v_comp
bindkey '^X^W' __v_state
bindkey '^X^K' kill-whole-line
bindkey '^X^B' backward-char
bindkey '^X^A' beginning-of-line
bindkey '^X^Y' send-break
'''
KEYS = {'dump': {'bash': '\x18\x14', 'fish': '\x18\x04', 'zsh': '\x18\x14'}, 'comp': '\x18\x05', 'clear': '\x18\x0b', 'state': '\x18\x17', 'back': '\x18\x02', 'home': '\x18\x01', 'cancel': '\x18\x19'}


def zsh_dump(d):
    '''A completion dump of the standard functions, made once.'''
    import subprocess
    p = os.path.join(d, 'zcompdump')
    if not os.path.exists(p):
        t = '%s.%d' % (p, os.getpid())
        subprocess.run(['/usr/bin/zsh', '-f', '-c', 'autoload -Uz compinit; compinit -u -d %s' % t], check=True,
                       env={'PATH': '/usr/bin:/bin', 'HOME': d, 'LC_ALL': 'C.UTF-8'}, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL)
        os.chmod(t, 0o644)
        os.rename(t, p)
    return p


def put(path, content, mode=None):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as fh:
        fh.write(content if isinstance(content, bytes) else content.encode('utf-8', 'surrogateescape'))
    if mode is not None:
        os.chmod(path, mode)


class Sh:
    timeout = 25

    def __init__(self, kind, base, scripts, dump=None, user_rc='', files=None, env=None, helpers=None, pre_rc=''):
        '''scripts: list of (program, completion script text)'''
        self.kind = kind
        self.base = base
        shutil.rmtree(base, ignore_errors=True)
        self.home = os.path.join(base, 'home')
        self.io = os.path.join(base, 'io')
        self.bin = os.path.join(base, 'bin')
        for d in (self.home, self.io, self.bin, self.io + '/fpath', self.io + '/xdg/fish', self.io + '/data'):
            os.makedirs(d, exist_ok=True)
        for p, c in (files or {}).items():
            if c is None:
                os.makedirs(os.path.join(self.home, p), exist_ok=True)
            else:
                put(os.path.join(self.home, p), c)
        for n, t in (helpers or {}).items():
            self.helper(n, t)
        os.mkfifo(self.io + '/fifo', 0o600)
        os.mkfifo(self.io + '/gate', 0o600)
        rc = {'bash': BASH_RC, 'fish': FISH_RC, 'zsh': ZSH_RC}[kind].replace('@IO@', self.io).replace('@DUMP@', dump or '')
        rc = pre_rc + rc + user_rc + '\n'
        for i, (prog, text) in enumerate(scripts):
            m = re.search(r'^#compdef (.*)$' if kind == 'zsh' else r'^complete .*-F \S+ (.*)$', text, re.M)
            names = ' '.join([prog] + [x for x in (m.group(1).split() if m else []) if re.match(r'\w+\Z', x) and x != prog])
            if kind == 'bash':
                put(self.io + '/s%d' % i, text)
                rc += '. %s/s%d\n__v_hook %s\n' % (self.io, i, names)
            elif kind == 'fish':
                put(self.io + '/s%d' % i, text)
                rc += 'source %s/s%d\n' % (self.io, i)
            else:
                put(self.io + '/fpath/_' + prog, text)
                rc += 'autoload -Uz _%s; compdef _%s %s\n' % (prog, prog, names)
        e = {'HOME': self.home, 'PATH': self.bin + ':/usr/bin:/bin', 'LC_ALL': 'C.UTF-8', 'PWD': self.home, 'VIO': self.io, 'SHELL': '/bin/sh'}
        if kind == 'bash':
            put(self.io + '/rc', rc)
            argv = ['/bin/bash', '--noprofile', '--rcfile', self.io + '/rc', '-i']
            e['TERM'] = 'dumb'
        elif kind == 'fish':
            put(self.io + '/xdg/fish/config.fish', rc)
            argv = ['/usr/bin/fish', '-i']
            e.update(TERM='xterm', XDG_CONFIG_HOME=self.io + '/xdg', XDG_DATA_HOME=self.io + '/data', XDG_CACHE_HOME=self.io + '/data', XDG_RUNTIME_DIR=self.io + '/data')
        else:
            put(self.io + '/.zshrc', rc)
            argv = ['/usr/bin/zsh', '-o', 'NO_GLOBAL_RCS', '-i']
            e.update(TERM='dumb', ZDOTDIR=self.io)
        e.update(env or {})
        for r, ds, fs in os.walk(base):
            os.chown(r, UID, UID)
            for f in fs:
                os.chown(os.path.join(r, f), UID, UID, follow_symlinks=False)
        self.ff = os.open(self.io + '/fifo', os.O_RDWR | os.O_NONBLOCK)
        self.buf = b''
        self.tty = b''
        self.pid, self.fd = pty.fork()
        if self.pid == 0:
            try:
                for sig in (signal.SIGINT, signal.SIGPIPE, signal.SIGQUIT):
                    signal.signal(sig, signal.SIG_DFL)      # the workers ignore ^C, the shells must not inherit that
                os.chdir(self.home)
                os.setgroups([])
                os.setresgid(UID, UID, UID)
                os.setresuid(UID, UID, UID)
                os.execve(argv[0], argv, e)
            finally:
                os._exit(127)
        fcntl.ioctl(self.fd, termios.TIOCSWINSZ, struct.pack('HHHH', 40, 2000, 0, 0))
        self.prompt()

    # -- plumbing -----------------------------------------------------------
    def pump(self, t):
        r, _, _ = select.select([self.fd, self.ff], [], [], t)
        for x in r:
            try:
                d = os.read(x, 65536)
            except BlockingIOError:
                continue
            except OSError:
                raise Dead('shell is gone: %r' % self.tty[-300:])
            if x == self.fd:
                if not d:
                    raise Dead('shell is gone: %r' % self.tty[-300:])
                self.tty += d
            else:
                self.buf += d
        return bool(r)

    def send(self, s):
        b = s.encode('utf-8', 'surrogateescape')
        while b:
            # a line editor that echoes while we write must not block us
            n = os.write(self.fd, b[:512])
            b = b[n:]
            if b:
                self.pump(0.001)

    def until(self, marker, timeout=None):
        end = time.monotonic() + (timeout or self.timeout)
        while marker not in self.buf:
            if time.monotonic() > end:
                raise Hang('no %r; fifo %r tty %r' % (marker, self.buf[-300:], self.tty[-500:]))
            self.pump(0.2)
        i = self.buf.index(marker) + len(marker)
        r, self.buf = self.buf[:i], self.buf[i:]
        return r

    def key(self, name):
        k = KEYS[name]
        self.send(k[self.kind] if isinstance(k, dict) else k)

    # -- events -------------------------------------------------------------
    def helper(self, name, text):
        p = os.path.join(self.bin, name)
        if text is None:
            if os.path.lexists(p):
                os.unlink(p)
            return
        t = p + '.new'
        put(t, text, 0o755)
        os.rename(t, p)

    def line(self):
        self.key('dump')
        x = self.until(b'END\0').split(b'\0')
        return x[-4].decode('utf-8', 'surrogateescape'), int(x[-3])

    def type(self, s):
        self.send(s)

    def clear(self):
        self.key('clear')

    def query(self, stalled=False):
        '''Suggestions for the current line; the line stays as it is.  Helpers that stall are let go one after the other.'''
        self.err_mark()
        self.tty = b''
        self.key('comp')
        if self.kind == 'bash':
            self.key('dump')
        if stalled:
            end = time.monotonic() + self.timeout
            while b'END\0' not in self.buf and time.monotonic() < end:
                self.gate()
                self.pump(0.002)
        x = self.until(b'END\0')
        r = self._parse(x)
        if self.kind == 'bash':
            # possible-completions may extend the line
            r['line'] = x.split(b'\0')[-4].decode('utf-8', 'surrogateescape')
        return r

    def _parse(self, x):
        i = x.find(b'COMP\0')
        if i < 0:
            return {'cands': [], 'called': False, 'err': self.err(), 'opts': ''}
        parts = x[i + 5:].split(b'\0')
        opts = ''
        c, shown, flat = [], [], []
        if self.kind == 'fish':
            for l in parts[0].decode('utf-8', 'surrogateescape').split('\n'):
                if l:
                    c.append(l.split('\t')[0])
                    shown.append(['', c[-1], l.partition('\t')[2]])
        else:
            for p in parts:
                if p.startswith(b'='):
                    c.append(p[1:].decode('utf-8', 'surrogateescape'))
                elif p.startswith(b'+') and self.kind == 'zsh':
                    flat.append(p[1:].decode('utf-8', 'surrogateescape'))
                elif p.startswith(b'OPT'):
                    opts = p[3:].decode()
                    break
                else:
                    break
        shown += [flat[i:i + 3] for i in range(0, len(flat), 3)]
        return {'cands': c, 'called': True, 'err': self.err(), 'opts': opts, 'shown': shown}

    def until_any(self, *markers):
        end = time.monotonic() + self.timeout
        while True:
            hit = [(self.buf.index(m), m) for m in markers if m in self.buf]
            if hit:
                i, m = min(hit)
                r, self.buf = self.buf[:i + len(m)], self.buf[i + len(m):]
                return m, r
            if time.monotonic() > end:
                raise Hang('none of %r; fifo %r tty %r' % (markers, self.buf[-300:], self.tty[-500:]))
            self.pump(0.2)

    def interrupt(self):
        '''Ask for suggestions; when a helper is running (see BLOCK), hit ^C.  Returns whether that happened.'''
        self.gated = True
        self.line()
        while self.pump(0):
            pass
        self.tty = b''
        self.key('comp')
        m, _ = self.until_any(b'HSTART\0', b'COMP\0')
        if m == b'COMP\0':
            if self.kind == 'bash':
                self.key('dump')
            self.until(b'END\0')
            return False
        self.quiet()
        before = sorted(p for p, _ in self.session_procs())
        self.send('\x03')
        end = time.monotonic() + self.timeout

        def late(what):
            if time.monotonic() > end:
                raise Hang('%s does not react to ^C: %s: fifo %r tty %r' % (self.kind, what, self.buf[-200:], self.tty[-300:]))
        if self.kind == 'bash':
            # the completion function goes on without the helper (readline acts on the signal at the next key), or ends at once
            while b'COMP\0' not in self.buf and b'PROMPT\0' not in self.buf:
                self.pump(0.2)
                late('no answer')
            while b'PROMPT\0' not in self.buf:
                late('no prompt')
                self.key('dump')
                t = time.monotonic() + 0.03
                while b'PROMPT\0' not in self.buf and time.monotonic() < t:
                    self.pump(0.03)
            self.until(b'PROMPT\0')
            while b'<P>' not in self.tty:
                late('no prompt')
                self.pump(0.2)
            self.quiet()
            if termios.tcgetattr(self.fd)[3] & termios.ICANON:
                # bash does not prepare the terminal again when it leaves a completion function that way; the next line is fine
                self.tty = b''
                self.send('\n')
                self.prompt()
        elif self.kind == 'zsh':
            # zsh waits for a helper in a command substitution even so
            while b'Killed by signal' not in self.tty and sorted(p for p, _ in self.session_procs()) == before:
                late('nothing happens')
                self.pump(0.005)
            self.key('dump')
            while b'LINE\0' not in self.buf or b'END\0' not in self.buf[self.buf.rindex(b'LINE\0'):]:
                late('no answer')
                self.quiet()
                self.gate()
                self.pump(0.02)
            self.buf = b''
        self.clear()
        self.line()
        return True

    def session_procs(self):
        for p in os.listdir('/proc'):
            if p.isdigit():
                try:
                    with open('/proc/%s/stat' % p) as fh:
                        f = fh.read().rpartition(')')[2].split()
                    if int(f[3]) == self.pid:
                        yield int(p), f[0]
                except (OSError, ValueError, IndexError):
                    pass

    def quiet(self):
        '''Wait until every process of the session sleeps, so that a signal strikes at a defined point.'''
        end = time.monotonic() + self.timeout
        n = 0
        while n < 2:
            n = n + 1 if all(s in 'SZ' for _, s in self.session_procs()) else 0
            if time.monotonic() > end:
                raise Hang('the session does not come to rest')
            time.sleep(0.001)

    def gate(self):
        '''Let a blocked helper go on, if there is one.'''
        try:
            fd = os.open(self.io + '/gate', os.O_WRONLY | os.O_NONBLOCK)
        except OSError:
            return
        os.write(fd, b'\n')
        os.close(fd)

    def release(self):
        '''Let a blocked helper go on.'''
        end = time.monotonic() + self.timeout
        while True:
            try:
                fd = os.open(self.io + '/gate', os.O_WRONLY | os.O_NONBLOCK)
                break
            except OSError:
                if time.monotonic() > end:
                    raise Hang('nobody waits at the gate')
                time.sleep(0.001)
        os.write(fd, b'\n')
        os.close(fd)

    gated = False

    def tab(self):
        '''The real completion key.'''
        self.err_mark()
        self.send('\t')
        return self.line()

    def err_mark(self):
        try:
            self._em = os.path.getsize(self.io + '/err')
        except OSError:
            self._em = 0

    def err(self):
        try:
            with open(self.io + '/err', 'rb') as fh:
                fh.seek(self._em)
                return fh.read().decode('utf-8', 'replace')
        except OSError:
            return ''

    def run(self, cmd):
        '''Accept a command line and wait for the next prompt.'''
        self.clear()
        self.send(cmd)
        self.line()
        while self.pump(0):
            pass
        self.tty = b''
        self.send('\r')
        self.prompt()

    def prompt(self):
        '''Wait until the line editor has taken over the terminal.'''
        self.until(b'PROMPT\0')
        end = time.monotonic() + self.timeout
        while b'<P>' not in self.tty or termios.tcgetattr(self.fd)[3] & termios.ICANON:
            if time.monotonic() > end:
                raise Hang('no prompt: lflag %o, tty %r, fifo %r' % (termios.tcgetattr(self.fd)[3], self.tty[-300:], self.buf[-200:]))
            self.pump(0.0005 if b'<P>' in self.tty else 0.5)

    def state(self):
        self.key('state')
        self.until(b'STATE\0END\0')
        with open(self.io + '/state', 'rb') as fh:
            d = fh.read().decode('utf-8', 'surrogateescape')
        parts = d.split('\0')
        return {parts[i].strip('\n'): parts[i + 1] for i in range(0, len(parts) - 1, 2)}

    def close(self):
        try:
            os.close(self.fd)
        except OSError:
            pass
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        if self.gated:
            self.reap()
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        os.close(self.ff)
        shutil.rmtree(self.base, ignore_errors=True)


    def reap(self):
        '''Helpers left behind in the session of the shell.'''
        for p, _ in list(self.session_procs()):
            if p != self.pid:
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass


BLOCK = '''#!/bin/sh
exec 2>/dev/null
printf 'HSTART\\0' >"$VIO/fifo"
read x <"$VIO/gate"
'''


class Pool:
    '''Creates shells for one worker.'''

    def __init__(self, ctx):
        self.dir = os.path.join(ctx.base, 'sh')
        os.makedirs(self.dir, exist_ok=True)
        os.chmod(self.dir, 0o755)
        self.dump = None
        self.live = []

    def open(self, kind, scripts, name='s', **kw):
        if kind == 'zsh' and self.dump is None:
            self.dump = zsh_dump(self.dir)
        s = Sh(kind, os.path.join(self.dir, name), scripts, dump=self.dump, **kw)
        self.live.append(s)
        return s

    def reset(self):
        for s in self.live:
            try:
                s.close()
            except OSError:
                pass
        self.live = []

    def close(self):
        self.reset()
