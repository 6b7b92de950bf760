#: module frontier..osaka
#: frontier..paris
from ethereum.fork_criteria import ByBlockNumber
#: frontier
FORK_CRITERIA = ByBlockNumber(0)
#: homestead
FORK_CRITERIA = ByBlockNumber(1150000)
#: dao_fork
FORK_CRITERIA = ByBlockNumber(1920000)
#: tangerine_whistle
FORK_CRITERIA = ByBlockNumber(2463000)
#: spurious_dragon
FORK_CRITERIA = ByBlockNumber(2675000)
#: byzantium
FORK_CRITERIA = ByBlockNumber(4370000)
#: constantinople
FORK_CRITERIA = ByBlockNumber(7280000)
#: istanbul
FORK_CRITERIA = ByBlockNumber(9069000)
#: muir_glacier
FORK_CRITERIA = ByBlockNumber(9200000)
#: berlin
FORK_CRITERIA = ByBlockNumber(12244000)
#: london
FORK_CRITERIA = ByBlockNumber(12965000)
#: arrow_glacier
FORK_CRITERIA = ByBlockNumber(13773000)
#: gray_glacier
FORK_CRITERIA = ByBlockNumber(15050000)
#: paris
FORK_CRITERIA = ByBlockNumber(15537394)
#: shanghai..prague
from ethereum.fork_criteria import ByTimestamp
#: shanghai
FORK_CRITERIA = ByTimestamp(1681338455)
#: cancun
FORK_CRITERIA = ByTimestamp(1710338135)
#: prague
FORK_CRITERIA = ByTimestamp(1746612311)
#: osaka
from ethereum.fork_criteria import Unscheduled
FORK_CRITERIA = Unscheduled()
