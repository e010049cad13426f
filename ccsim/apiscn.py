'''Library-level scenarios, executed in the forked child of the generator simulator.

Results are written as one JSON document to fd 8 (a file outside the run's world).
'''
import sys, os, json


def _load(path, fmt):
    from crazy_complete import json_source, yaml_source
    return (json_source if fmt == 'json' else yaml_source).load_from_file(path)


def _text(cmdline, shell):
    from crazy_complete import bash, fish, zsh, config, json_source, yaml_source
    if shell == 'json':
        return json_source.commandline_to_json(cmdline)
    if shell == 'yaml':
        return yaml_source.commandline_to_yaml(cmdline)
    return {'bash': bash, 'fish': fish, 'zsh': zsh}[shell].generate_completion(cmdline, config.Config())


def emit(req, obj):
    b = json.dumps(obj).encode()
    fd = os.open(os.path.join(req['io'], 'result'), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    while b:
        n = os.write(fd, b)
        b = b[n:]
    os.close(fd)


def main(req):
    import importlib
    name = req['scenario']
    if name == 'text':
        try:
            t = _text(_load(req['file'], req['fmt']), req['shell'])
        except (ImportError, AttributeError, TypeError) as e:
            emit(req, {'unavailable': repr(e)})
            return
        emit(req, {'text': t})
        return
    mod = importlib.import_module(req.get('module', 'scn_' + name))
    emit(req, mod.run(req))
