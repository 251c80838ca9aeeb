from atgmon.core import main
main()
