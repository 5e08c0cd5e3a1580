/* nothing is left out */
