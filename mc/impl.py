"""Access to the code under test through its public interface only."""

import bare_script
from bare_script import (  # pylint: disable=unused-import
    BareScriptParserError, BareScriptRuntimeError, evaluate_expression, execute_script, lint_script, parse_expression,
    parse_script, url_file_relative, validate_expression, validate_script
)

from . import ref


def library():
    """{name: function} of the script library, as injected into the globals of an empty script."""
    options = {'globals': {}}
    execute_script({'statements': []}, options)
    return dict(options['globals'])


_LIB = {}


def lib():
    if not _LIB:
        _LIB.update(library())
    return _LIB




class Run:
    """The observable outcome of one execution."""

    __slots__ = ('kind', 'value', 'logs', 'globals', 'error', 'count')

    def key(self):
        return (self.kind, ref.show(self.value), tuple(self.logs), self.error)


def run_script(model, globals_=None, max_statements=20000, **extra):
    """Execute a model, observing result, logs, globals and the escaping exception."""
    out = Run()
    out.logs = []
    options = {'globals': globals_ if globals_ is not None else {}, 'logFn': out.logs.append, 'maxStatements': max_statements}
    options.update(extra)
    out.value = None
    out.error = None
    try:
        out.value = execute_script(model, options)
        out.kind = 'return'
    except BareScriptRuntimeError as exc:
        out.kind = 'runtime-error'
        out.error = str(exc)
    except BareScriptParserError as exc:
        out.kind = 'parser-error'
        out.error = str(exc)
    out.globals = options['globals']
    out.count = options.get('statementCount')
    return out


def user_globals(globals_, ignore=()):
    """The data variables of a globals object: no functions, no reserved temporaries."""
    return {k: v for k, v in globals_.items()
            if not k.startswith('__bareScript') and not callable(v) and k not in ignore}
