"""The library's entry points, imported once per worker."""
from vrml import protofunctions, node, field, fieldtypes, olist, route, cache, copier  # noqa: F401
from vrml.node import Node, NullNode, NULL, PrototypedNode  # noqa: F401
from vrml.protofunctions import (protoName, defName, getFields, getField, getSceneGraph, getExternalURL, builtin, root)  # noqa: F401
from vrml.vrml97 import basenodes, basenamespaces, parser as parsermod, scenegraph, linearise, nodepath, transformmatrix  # noqa: F401
from pydispatch import dispatcher  # noqa: F401

_PARSER = []


def parser(fresh=False):
    if fresh:
        return parsermod.buildParser()
    if not _PARSER:
        _PARSER.append(parsermod.buildParser())
    return _PARSER[0]


class NotParsed(Exception):
    pass


def parse(text, p=None):
    """The scenegraph of a complete document"""
    success, results, end = (p or parser()).parse(text)
    if not success or end != len(text):
        raise NotParsed('success=%r, parsed %r of %d characters' % (success, end, len(text)))
    scenes = [r for r in results if isinstance(r, scenegraph.SceneGraph)]
    if len(scenes) != 1:
        raise NotParsed('%d scenes' % len(scenes))
    return scenes[0]


def text_of(exc):
    """str() of a simpleparse syntax error may never end (its line count)"""
    if isinstance(exc, SyntaxError):
        return '%s at %r in production %r: %r' % (type(exc).__name__, exc.position, exc.production, exc.buffer[exc.position:exc.position + 60])
    return '%s: %s' % (type(exc).__name__, str(exc)[:500])
