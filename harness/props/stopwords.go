package props

// shippedStopWords are the words of the library's SpanishStopWords, written
// down here so that a word that is lost there is missed.
var shippedStopWords = []string{
	"a", "actualmente", "adelante", "además", "afirmó", "agregó", "ahora", "ahí", "al",
	"algo", "alguna", "algunas", "alguno", "algunos", "algún", "alrededor", "ambos",
	"ampleamos", "ante", "anterior", "antes", "apenas", "aproximadamente", "aquel",
	"aquellas", "aquellos", "aqui", "aquí", "arriba", "aseguró", "así", "atras", "aunque",
	"ayer", "añadió", "aún", "bajo", "bastante", "bien", "buen", "buena", "buenas", "bueno",
	"buenos", "cada", "casi", "cerca", "cierta", "ciertas", "cierto", "ciertos", "cinco",
	"comentó", "como", "con", "conocer", "conseguimos", "conseguir", "considera",
	"consideró", "consigo", "consigue", "consiguen", "consigues", "contra", "cosas", "creo",
	"cual", "cuales", "cualquier", "cuando", "cuanto", "cuatro", "cuenta", "cómo", "da",
	"dado", "dan", "dar", "de", "debe", "deben", "debido", "decir", "dejó", "del", "demás",
	"dentro", "desde", "después", "dice", "dicen", "dicho", "dieron", "diferente",
	"diferentes", "dijeron", "dijo", "dio", "donde", "dos", "durante", "e", "ejemplo", "el",
	"ella", "ellas", "ello", "ellos", "embargo", "empleais", "emplean", "emplear",
	"empleas", "empleo", "en", "encima", "encuentra", "entonces", "entre", "era", "eramos",
	"eran", "eras", "eres", "es", "esa", "esas", "ese", "eso", "esos", "esta", "estaba",
	"estaban", "estado", "estais", "estamos", "estan", "estar", "estará", "estas", "este",
	"esto", "estos", "estoy", "estuvo", "está", "están", "ex", "existe", "existen",
	"explicó", "expresó", "fin", "fue", "fuera", "fueron", "fui", "fuimos", "gran",
	"grandes", "gueno", "ha", "haber", "habrá", "había", "habían", "hace", "haceis",
	"hacemos", "hacen", "hacer", "hacerlo", "haces", "hacia", "haciendo", "hago", "han",
	"hasta", "hay", "haya", "he", "hecho", "hemos", "hicieron", "hizo", "hoy", "hubo",
	"igual", "incluso", "indicó", "informó", "intenta", "intentais", "intentamos",
	"intentan", "intentar", "intentas", "intento", "ir", "junto", "la", "lado", "largo",
	"las", "le", "les", "llegó", "lleva", "llevar", "lo", "los", "luego", "lugar", "manera",
	"manifestó", "mayor", "me", "mediante", "mejor", "mencionó", "menos", "mi", "mientras",
	"mio", "misma", "mismas", "mismo", "mismos", "modo", "momento", "mucha", "muchas",
	"mucho", "muchos", "muy", "más", "nada", "nadie", "ni", "ninguna", "ningunas",
	"ninguno", "ningunos", "ningún", "no", "nos", "nosotras", "nosotros", "nuestra",
	"nuestras", "nuestro", "nuestros", "nueva", "nuevas", "nuevo", "nuevos", "nunca", "o",
	"ocho", "otra", "otras", "otro", "otros", "para", "parece", "parte", "partir", "pasada",
	"pasado", "pero", "pesar", "poca", "pocas", "poco", "pocos", "podeis", "podemos",
	"poder", "podria", "podriais", "podriamos", "podrian", "podrias", "podrá", "podrán",
	"podría", "podrían", "poner", "por", "porque", "posible", "primer", "primera",
	"primero", "primeros", "principalmente", "propia", "propias", "propio", "propios",
	"próximo", "próximos", "pudo", "pueda", "puede", "pueden", "puedo", "pues", "que",
	"quedó", "queremos", "quien", "quienes", "quiere", "quién", "qué", "realizado",
	"realizar", "realizó", "respecto", "sabe", "sabeis", "sabemos", "saben", "saber",
	"sabes", "se", "sea", "sean", "segunda", "segundo", "según", "seis", "ser", "será",
	"serán", "sería", "señaló", "si", "sido", "siempre", "siendo", "siete", "sigue",
	"siguiente", "sin", "sino", "sobre", "sois", "sola", "solamente", "solas", "solo",
	"solos", "somos", "son", "soy", "su", "sus", "sí", "sólo", "tal", "también", "tampoco",
	"tan", "tanto", "tendrá", "tendrán", "teneis", "tenemos", "tener", "tenga", "tengo",
	"tenido", "tenía", "tercera", "tiempo", "tiene", "tienen", "toda", "todas", "todavía",
	"todo", "todos", "total", "trabaja", "trabajais", "trabajamos", "trabajan", "trabajar",
	"trabajas", "trabajo", "tras", "trata", "través", "tres", "tuvo", "tuyo", "ultimo",
	"un", "una", "unas", "uno", "unos", "usa", "usais", "usamos", "usan", "usar", "usas",
	"uso", "usted", "va", "vais", "valor", "vamos", "van", "varias", "varios", "vaya",
	"veces", "ver", "verdad", "verdadera", "verdadero", "vez", "vosotras", "vosotros",
	"voy", "y", "ya", "yo", "él", "ésta", "éstas", "éste", "éstos", "última", "últimas",
	"último", "últimos",
}
