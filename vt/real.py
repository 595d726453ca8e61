"""The real backends (oldmemo, twomemo) under the real SessionManager, exchanging the real XML."""
import xml.etree.ElementTree as ET

import oldmemo
import oldmemo.etree
import twomemo
import twomemo.etree

from .world import Node

TWO, OLD = twomemo.twomemo.NAMESPACE, oldmemo.oldmemo.NAMESPACE
ETREE = {TWO: twomemo.etree, OLD: oldmemo.etree}


class RealNode(Node):
    """``limits``: arguments of the backends, per namespace or for all."""

    def make_backend(self, namespace):
        args = self.backend_args
        args = args.get(namespace, {}) if any(k in args for k in self.namespaces) else args
        cls = {TWO: twomemo.Twomemo, OLD: oldmemo.Oldmemo}[namespace]
        return cls(self.storage, **args)


def to_xml(message):
    return ET.tostring(ETREE[message.namespace].serialize_message(message), encoding="unicode")


async def from_xml(text, namespace, sender_jid, receiver):
    element = ET.fromstring(text)
    if namespace == TWO:
        return twomemo.etree.parse_message(element, sender_jid)
    return await oldmemo.etree.parse_message(element, sender_jid, receiver.jid, receiver.mgr)


def bundle_to_xml(bundle):
    return ET.tostring(ETREE[bundle.namespace].serialize_bundle(bundle), encoding="unicode")


def bundle_from_xml(text, namespace, jid, dev):
    return ETREE[namespace].parse_bundle(ET.fromstring(text), jid, dev)
