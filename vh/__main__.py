import sys
import vh
rc = vh.main(sys.argv[1], sys.argv[2:])
sys.stdout.flush()
sys.exit(rc)
