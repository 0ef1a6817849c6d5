"""Expansions of descriptions with glob items."""
import m_expand


class Session(m_expand.Session):
    GLOBS = True


commands = m_expand.commands
