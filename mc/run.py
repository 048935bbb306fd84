import importlib
import os
import sys

from mc import engine

sys.path.insert(0, engine.REPO)
sys.dont_write_bytecode = True


def build(property_id):
    def for_tier(tier):
        def load():
            return importlib.import_module(f"checks.{property_id.lower()}").spaces(tier)

        return load

    return for_tier


if __name__ == "__main__":
    property_id = sys.argv[1]
    path = os.path.join(engine.VERIF, "checks", f"{property_id.lower()}.py")
    if not os.path.exists(path):
        sys.exit(f"no such check: {property_id}")
    sys.exit(engine.main(property_id, build(property_id), sys.argv[2:]))
