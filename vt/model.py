"""Reference model of what a device knows about other devices (independent of how the library stores it)."""


class Lists:
    """The documented device list semantics."""

    def __init__(self):
        self.dev = {}  # jid -> {device id: {"ns": set, "active": {ns: bool}, "label": str | None}}

    def update(self, ns, jid, device_list, own=None):
        """``own``: (jid, device id) of this device. Returns the list as it has to be published (or None)."""
        device_list = dict(device_list)
        known = self.dev.setdefault(jid, {})
        publish = None
        if own is not None and own[0] == jid and own[1] not in device_list:
            device_list[own[1]] = known[own[1]]["label"]
            publish = dict(device_list)
        for dev in list(known):
            info = known[dev]
            if dev in device_list:
                info["ns"].add(ns)
                info["active"][ns] = True
                if device_list[dev] is not None:
                    info["label"] = device_list[dev]
            elif ns in info["ns"]:
                info["active"][ns] = False
        for dev, label in device_list.items():
            if dev not in known:
                known[dev] = {"ns": {ns}, "active": {ns: True}, "label": label}
        return publish

    def of(self, jid):
        return self.dev.get(jid, {})

    def matches(self, device):
        """Does a DeviceInformation agree with the model?"""
        info = self.dev.get(device.bare_jid, {}).get(device.device_id)
        return info is not None and (
            set(device.namespaces) == info["ns"] and dict(device.active) == info["active"]
            and device.label == info["label"]
        )
