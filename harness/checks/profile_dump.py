"""prints the events of a merged profile: count, shortest duration, participant, rank, event"""
import sqlite3
import sys

for row in sqlite3.connect(sys.argv[1]).execute(
    "SELECT count(*), min(dur), participant, rank, event FROM full_events GROUP BY participant, rank, event"
):
    print(*row, sep="\t")
