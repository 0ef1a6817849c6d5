"""Expansions of descriptions without glob items."""
import m_expand


class Session(m_expand.Session):
    GLOBS = False


commands = m_expand.commands
