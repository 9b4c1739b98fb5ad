"""setup_cmd: builds the harnesses once, so that each check only rebuilds what changed."""
from . import build
def main():
    build.ribtool()
    build.capitool()
    build.renderer()
if __name__ == "__main__":
    main()
