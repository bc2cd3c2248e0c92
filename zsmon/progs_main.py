"""entry point of the processes started by C26"""
import sys
from zsmon import boot

if __name__ == '__main__':
    boot.boot()
    from zsmon import progs
    progs.main(sys.argv[1:])
