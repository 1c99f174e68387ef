"""Run under the repository's interpreter: dumps the constants of the libraries
zigpy_cc uses (enums, configuration keys, cluster ids) to pyvc/extconst.json.
The conformance check re-derives the same table and compares."""
import enum, json, sys


def table():
    import zigpy.types, zigpy.config, zigpy.zdo.types as zt
    from zigpy.profiles import zha, zll
    import zigpy.zcl.clusters.general as g, zigpy.zcl.clusters.security as s
    import serial
    out = {"enums": {}, "ints": {}, "consts": {}}
    for modname, mod in (("zigpy.types", zigpy.types), ("zigpy.zdo.types", zt)):
        for n in dir(mod):
            c = getattr(mod, n)
            if isinstance(c, type) and issubclass(c, enum.Enum) and issubclass(c, int) and list(c):
                flag = issubclass(c, enum.Flag)
                out["enums"][modname + "." + n] = {
                    "open": hasattr(c, "_missing_") and not flag, "flag": flag, "size": c._size,
                    "members": {k: int(v) for k, v in c.__members__.items()}}
            elif isinstance(c, type) and issubclass(c, int) and getattr(c, "_size", None):
                out["ints"][modname + "." + n] = [c._size, bool(c._signed)]
    for n in dir(zigpy.config):
        if n.startswith("CONF_") and isinstance(getattr(zigpy.config, n), (str, int, type(None))):
            out["consts"]["zigpy.config." + n] = getattr(zigpy.config, n)
    out["consts"]["zigpy.profiles.zha.PROFILE_ID"] = zha.PROFILE_ID
    out["consts"]["zigpy.profiles.zll.PROFILE_ID"] = zll.PROFILE_ID
    for modname, mod in (("zigpy.zcl.clusters.general", g), ("zigpy.zcl.clusters.security", s)):
        for n in dir(mod):
            c = getattr(mod, n)
            if isinstance(c, type) and isinstance(getattr(c, "cluster_id", None), int):
                out["consts"]["%s.%s.cluster_id" % (modname, n)] = c.cluster_id
    for n in ("PARITY_NONE", "PARITY_EVEN", "PARITY_ODD", "STOPBITS_ONE", "STOPBITS_TWO", "EIGHTBITS", "SEVENBITS"):
        out["consts"]["serial." + n] = getattr(serial, n)
    return out


if __name__ == "__main__":
    with open(sys.argv[1], "w") as f:
        json.dump(table(), f, indent=0, sort_keys=True)
