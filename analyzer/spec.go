package main

// Spec is what the documentation (and Redis) says about one command; it is the
// oracle of the per-command rules.
type Spec struct {
	keys    string // positions of the keys among the arguments: "0", "01", "all", "even", "none", "scan"
	write   bool   // may change stored data
	dest    bool   // argument 0 is the destination of a *STORE command: the others are only read
	kind    string // kind of value the command works on ("" = any)
	over    bool   // overwrites argument 0 whatever its kind
	lenient bool   // a value of another kind reads as missing (MGET)
	min     int    // fewest arguments
	odd     bool   // number of arguments must be odd
	even    bool   // number of arguments must be even
	ints    []int  // arguments that must be integers (when present)
	floats  []int  // arguments that must be floats
	bounds  []int  // arguments that must be score bounds or indexes
	query   bool   // query or removal: a missing key has a documented empty answer
	missing []string
	integer string // meaning of the integer reply
	create  bool   // creates the key when missing
	stores  string // provenance of what is stored: see checkStored
	counter bool
}

func ints(a ...int) []int { return a }
func strs(a ...string) []string {
	return a
}

var zero = strs("0")
var nilOrEmpty = strs("nil", "empty")

// Specs is keyed by command name.
var Specs = map[string]*Spec{
	// keys
	"keys":    {keys: "scan", min: 1},
	"exists":  {keys: "0", min: 1, query: true, missing: zero, integer: "present"},
	"del":     {keys: "0", min: 1, write: true, query: true, missing: zero, integer: "deleted"},
	"type":    {keys: "0", min: 1, query: true, missing: strs("simple:none")},
	"ping":    {keys: "none"},
	"command": {keys: "none"},
	// strings
	"set":    {keys: "0", min: 2, write: true, over: true, kind: "string", create: true, stores: "string"},
	"mset":   {keys: "even", min: 2, even: true, write: true, over: true, kind: "string", create: true, stores: "string"},
	"get":    {keys: "0", min: 1, kind: "string", query: true, missing: strs("nil")},
	"mget":   {keys: "all", min: 1, kind: "string", lenient: true, query: true, missing: strs("array")},
	"incr":   {keys: "0", min: 1, write: true, kind: "string", create: true, counter: true, stores: "counter"},
	"incrby": {keys: "0", min: 2, ints: ints(1), write: true, kind: "string", create: true, counter: true, stores: "counter"},
	"decr":   {keys: "0", min: 1, write: true, kind: "string", create: true, counter: true, stores: "counter"},
	"decrby": {keys: "0", min: 2, ints: ints(1), write: true, kind: "string", create: true, counter: true, stores: "counter"},
	"append": {keys: "0", min: 2, write: true, kind: "string", create: true, stores: "append"},
	// lists
	"lpush":   {keys: "0", min: 2, write: true, kind: "list", create: true, integer: "size", stores: "list"},
	"rpush":   {keys: "0", min: 2, write: true, kind: "list", create: true, integer: "size", stores: "list"},
	"lpop":    {keys: "0", min: 1, ints: ints(1), write: true, kind: "list", query: true, missing: nilOrEmpty},
	"rpop":    {keys: "0", min: 1, ints: ints(1), write: true, kind: "list", query: true, missing: nilOrEmpty},
	"llen":    {keys: "0", min: 1, kind: "list", query: true, missing: zero, integer: "size"},
	"lrange":  {keys: "0", min: 3, ints: ints(1, 2), kind: "list", query: true, missing: strs("empty")},
	"lrem":    {keys: "0", min: 3, ints: ints(1), write: true, kind: "list", query: true, missing: zero, integer: "removed"},
	"lindex":  {keys: "0", min: 2, ints: ints(1), kind: "list", query: true, missing: strs("nil")},
	"lset":    {keys: "0", min: 3, ints: ints(1), write: true, kind: "list", stores: "list"},
	"linsert": {keys: "0", min: 4, write: true, kind: "list", stores: "list"},
	// sets
	"sadd":        {keys: "0", min: 2, write: true, kind: "set", create: true, integer: "added", stores: "set"},
	"scard":       {keys: "0", min: 1, kind: "set", query: true, missing: zero, integer: "size"},
	"sdiff":       {keys: "all", min: 1, kind: "set", query: true, missing: strs("array")},
	"sdiffstore":  {keys: "all", min: 2, write: true, dest: true, kind: "set", query: true, missing: strs("integer"), integer: "size", stores: "set"},
	"sinter":      {keys: "all", min: 1, kind: "set", query: true, missing: strs("array")},
	"sinterstore": {keys: "all", min: 2, write: true, dest: true, kind: "set", query: true, missing: strs("integer"), integer: "size", stores: "set"},
	"sunion":      {keys: "all", min: 1, kind: "set", query: true, missing: strs("array")},
	"sunionstore": {keys: "all", min: 2, write: true, dest: true, kind: "set", query: true, missing: strs("integer"), integer: "size", stores: "set"},
	"sismember":   {keys: "0", min: 2, kind: "set", query: true, missing: zero, integer: "member"},
	"smembers":    {keys: "0", min: 1, kind: "set", query: true, missing: strs("empty")},
	"smove":       {keys: "01", min: 3, write: true, kind: "set", query: true, missing: zero, integer: "moved", stores: "set"},
	"srem":        {keys: "0", min: 2, write: true, kind: "set", query: true, missing: zero, integer: "removed"},
	"spop":        {keys: "0", min: 1, ints: ints(1), write: true, kind: "set", query: true, missing: nilOrEmpty},
	// hashes
	"hdel":         {keys: "0", min: 2, write: true, kind: "hash", query: true, missing: zero, integer: "removed"},
	"hexists":      {keys: "0", min: 2, kind: "hash", query: true, missing: zero, integer: "member"},
	"hget":         {keys: "0", min: 2, kind: "hash", query: true, missing: strs("nil")},
	"hgetall":      {keys: "0", min: 1, kind: "hash", query: true, missing: nilOrEmpty},
	"hincrby":      {keys: "0", min: 3, ints: ints(2), write: true, kind: "hash", create: true, counter: true, stores: "hcounter"},
	"hincrbyfloat": {keys: "0", min: 3, floats: ints(2), write: true, kind: "hash", create: true, stores: "hcounter"},
	"hkeys":        {keys: "0", min: 1, kind: "hash", query: true, missing: strs("empty")},
	"hlen":         {keys: "0", min: 1, kind: "hash", query: true, missing: zero, integer: "size"},
	"hmget":        {keys: "0", min: 2, kind: "hash", query: true, missing: strs("array")},
	"hmset":        {keys: "0", min: 3, odd: true, write: true, kind: "hash", create: true, stores: "hash"},
	"hset":         {keys: "0", min: 3, odd: true, write: true, kind: "hash", create: true, stores: "hash"},
	"hsetnx":       {keys: "0", min: 3, write: true, kind: "hash", create: true, integer: "added", stores: "hash"},
	"hvals":        {keys: "0", min: 1, kind: "hash", query: true, missing: strs("empty")},
	// sorted sets
	"zadd":          {keys: "0", min: 3, write: true, kind: "zset", create: true, stores: "zset"},
	"zscore":        {keys: "0", min: 2, kind: "zset", query: true, missing: strs("nil")},
	"zrank":         {keys: "0", min: 2, kind: "zset", query: true, missing: strs("nil")},
	"zrem":          {keys: "0", min: 2, write: true, kind: "zset", query: true, missing: zero, integer: "removed"},
	"zcard":         {keys: "0", min: 1, kind: "zset", query: true, missing: zero, integer: "size"},
	"zcount":        {keys: "0", min: 3, bounds: ints(1, 2), kind: "zset", query: true, missing: zero},
	"zincr":         {keys: "0", min: 3, floats: ints(1), write: true, kind: "zset", create: true, stores: "zset"},
	"zrange":        {keys: "0", min: 3, bounds: ints(1, 2), kind: "zset", query: true, missing: nilOrEmpty},
	"zrangebyscore": {keys: "0", min: 3, bounds: ints(1, 2), kind: "zset", query: true, missing: nilOrEmpty},
	"zrevrange":     {keys: "0", min: 3, bounds: ints(1, 2), kind: "zset", query: true, missing: nilOrEmpty},
	"zpopmin":       {keys: "0", min: 1, ints: ints(1), write: true, kind: "zset", query: true, missing: nilOrEmpty},
	"zpopmax":       {keys: "0", min: 1, ints: ints(1), write: true, kind: "zset", query: true, missing: nilOrEmpty},
}
